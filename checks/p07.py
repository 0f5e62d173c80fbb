"""P07: namespace aliases stay a bijection."""
RESERVED = ['ns', 'mode', 'error', 'return_to', 'contact', 'reference', 'signed', 'assoc_type', 'session_type', 'dh_modulus', 'dh_gen',
            'dh_consumer_public', 'claimed_id', 'identity', 'realm', 'invalidate_handle', 'op_endpoint', 'response_nonce', 'sig',
            'assoc_handle', 'trust_root', 'openid']
NS2 = 'http://specs.openid.net/auth/2.0'


def alias_of(c, name, kind):
    if kind == 'sym':
        return c.text(name, c.params.get('a', 2), 0, c.params.get('chars'))
    if kind == 'tiny':
        return c.text(name, 1, 0, 'ab')
    if kind == 'short':
        return c.text(name, 1, 1, 'a-c')
    if kind == 'ext':
        return 'ext' + c.str(name, 1, '0-2')
    return c.choice(name, RESERVED)


def snapshot(nm, M):
    return [(u, nm.getAlias(u), nm.isImplicit(u)) for u in nm.iterNamespaceURIs()]


def bijective(c, nm, M):
    als = list(nm.iterAliases())
    uris = list(nm.iterNamespaceURIs())
    c.check(len(als) == len(uris), 'as many aliases as namespaces')
    for i, a in enumerate(als):
        u = nm.getNamespaceURI(a)
        c.check(u is not None and c.eq(nm.getAlias(u), a), 'every alias names one namespace, which has that alias')
        if a is not M.NULL_NAMESPACE:
            c.check(c.Not(c.has_char(a, '.')), 'no alias contains a period')
            c.check(c.And([c.Not(c.eq(a, r)) for r in RESERVED]), 'no alias is a protocol field name')
    for u in uris:
        a = nm.getAlias(u)
        c.check(a is not None and c.eq(nm.getNamespaceURI(a), u), 'every namespace has one alias, which names it')


def h_seq(c):
    M = c.mod('openid.message')
    nm = M.NamespaceMap()
    p = c.params
    if p.get('root'):
        nm.addAlias(NS2, M.NULL_NAMESPACE, c.maybe('implicit-root'))
    for i, op in enumerate(p['ops']):
        uri = c.choice('uri%d' % i, ['', 'u:a']) if p.get('empty') else c.choice('uri%d' % i, ['u:a', 'u:b', NS2]) if p.get('few') else 'u:' + c.str('uri%d' % i, 1, 'a-d')
        before = snapshot(nm, M)
        if op == 'add':
            known = nm.isDefined(uri)
            a, ex = c.attempt(nm.add, uri)
            c.check(ex is None, 'adding a namespace always works')
            c.check(c.eq(nm.getNamespaceURI(a), uri), 'the alias returned names the namespace')
            for u, al, im in before:
                c.check(c.eq(nm.getAlias(u), al), 'existing definitions are kept')
                if not known and al is not M.NULL_NAMESPACE:
                    c.check(c.Not(c.eq(al, a)), 'a generated alias is not one in use')
            c.check(len(snapshot(nm, M)) == len(before) + (0 if known else 1), 'exactly one definition is added')
        else:
            imp = c.maybe('imp%d' % i)
            al = M.NULL_NAMESPACE if op == 'null' else alias_of(c, 'al%d' % i, op)
            cur_u, cur_a = nm.getNamespaceURI(al), nm.getAlias(uri)
            r, ex = c.attempt(nm.addAlias, uri, al, imp)
            conflict = (cur_u is not None and not c.eq(cur_u, uri)) or (cur_a is not None and not c.eq(cur_a, al))
            bad = al is not M.NULL_NAMESPACE and c.Or(c.has_char(al, '.'), c.Or([c.eq(al, x) for x in RESERVED]))
            if ex is not None:
                after = snapshot(nm, M)
                c.check(len(after) == len(before), 'a refused definition changes nothing')
                for u, a2, im in before:
                    c.check(c.eq(nm.getAlias(u), a2), 'a refused definition changes nothing')
                    c.check(nm.isImplicit(u) == im, 'a refused definition changes nothing')
                c.check(c.Or(bad, conflict, c.eq(al, 'openid'), cur_u is not None), 'a definition without conflict is accepted')
                if conflict and not bad and op != 'res':
                    c.check(isinstance(ex, KeyError), 'a conflict is reported as a namespace error')
            else:
                c.check(not conflict, 'a conflicting definition is refused')
                c.check(c.Not(bad), 'an illegal alias is refused')
                c.check(c.eq(r, al) if al is not M.NULL_NAMESPACE else True, 'the alias is the desired one')
                c.check(c.eq(nm.getNamespaceURI(al), uri), 'the definition is in effect')
                c.check(nm.isDefined(uri) and uri in nm, 'the namespace is defined')
                if cur_u is None:
                    c.check(nm.isImplicit(uri) == imp, 'implicit exactly when asked for')
                for u, a2, im in before:
                    c.check(c.eq(nm.getAlias(u), a2), 'existing definitions are kept')
        bijective(c, nm, M)


def h_message(c):
    """Aliases of a parsed message."""
    M = c.mod('openid.message')
    post = {'openid.mode': 'x'}
    if c.maybe('v2'):
        post['openid.ns'] = NS2
    for i in range(c.params['n']):
        post['openid.ns.' + c.text('al%d' % i, 2, 0, c.params.get('chars'))] = c.choice('u%d' % i, ['u:a', 'u:b', NS2, 'http://openid.net/extensions/sreg/1.1'])
    post['openid.' + c.text('use', c.params.get('u', 3), 0, c.params.get('chars')) + '.x'] = 'v'
    m, ex = c.attempt(M.Message.fromPostArgs, post)
    if ex is None:
        bijective(c, m.namespaces, M)
        for k in post:
            if k.startswith('openid.ns.'):
                c.check(c.eq(m.namespaces.getNamespaceURI(k[10:]), post[k]), 'every alias definition of the query is in effect')


def h_register(c):
    """The registry of default aliases."""
    M = c.mod('openid.message')
    saved = dict(M.registered_aliases)
    try:
        pairs = []
        for i in range(c.params['n']):
            a, u = c.text('a%d' % i, 1, 1, 'a-c'), 'u:' + c.str('u%d' % i, 1, 'a-c')
            before = dict(M.registered_aliases)
            r, ex = c.attempt(M.registerNamespaceAlias, u, a)
            clash = c.Or([c.And(c.eq(a, x), c.Not(c.eq(u, y))) for x, y in pairs] + [c.And(c.eq(u, y), c.Not(c.eq(a, x))) for x, y in pairs])
            if ex is not None:
                c.check(isinstance(ex, M.NamespaceAliasRegistrationError), 'a conflict is refused with the registration error')
                c.check(clash, 'only a conflict is refused')
                c.check(c.eq(M.registered_aliases, before), 'a refused registration changes nothing')
            else:
                c.check(c.Not(clash), 'a conflicting registration is refused')
                pairs.append((a, u))
        for a, u in pairs:
            m = M.Message.fromPostArgs({'openid.mode': 'x', 'openid.' + a + '.f': 'v'})
            c.check(c.eq(m.getArg(u, 'f'), 'v'), 'a registered alias is used for OpenID 1 messages')
            m = M.Message.fromPostArgs({'openid.ns': NS2, 'openid.mode': 'x', 'openid.' + a + '.f': 'v'})
            c.check(m.getArg(u, 'f') is None, 'a registered alias is not used for OpenID 2 messages')
    finally:
        M.registered_aliases.clear()
        M.registered_aliases.update(saved)


Q = [dict(ops=['sym', 'sym'], root=1), dict(ops=['short', 'add', 'short', 'add'], few=1), dict(ops=['ext', 'ext', 'add', 'add'], few=1),
     dict(ops=['res', 'add'], root=1), dict(ops=['null', 'short', 'null', 'add'], few=1), dict(ops=['short', 'short', 'short'], root=1, few=1),
     dict(ops=['add', 'ext', 'add'], few=1, root=1), dict(ops=['tiny', 'tiny', 'add'], empty=1), dict(ops=['add', 'tiny', 'add'], empty=1), dict(ops=['sym'], a=5, chars='modensig.'), dict(ops=['sym'], a=3)]
HARNESSES = {
    'seq': dict(fn=h_seq, quick=Q, thorough=Q + [dict(ops=['sym', 'sym', 'add', 'sym'], root=1, few=1), dict(ops=['ext', 'ext', 'ext', 'add', 'add', 'add'], few=1),
                                                 dict(ops=['short', 'add', 'short', 'null', 'short'], few=1)],
                bounds='histories of up to 4/6 definitions over 3-4 namespaces; aliases up to 2/5 characters of all Unicode, generated-looking aliases, every reserved name'),
    'message': dict(fn=h_message, quick=[dict(n=2, u=1), dict(n=1, u=2)], thorough=[dict(n=2, u=2), dict(n=3, u=1, chars='a-c.ns')],
                    bounds='queries with up to 2/3 alias definitions (aliases up to 2 characters)'),
    'register': dict(fn=h_register, quick=[dict(n=2), dict(n=3)], bounds='up to 3 registrations over 3 aliases and 3 namespaces'),
}
