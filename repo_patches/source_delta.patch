From c8cb6782a21ca096f357bee83d210b882e8c53d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:00 +0000
Subject: [PATCH 01/54] fix: append query arguments before the fragment of a
 URL

---
 openid/oidutil.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/openid/oidutil.py b/openid/oidutil.py
index 884d38f..4eb9774 100644
--- a/openid/oidutil.py
+++ b/openid/oidutil.py
@@ -86,6 +86,9 @@ def appendArgs(url, args):
     if len(args) == 0:
         return url
 
+    # The query precedes the fragment
+    url, hash_sign, fragment = url.partition('#')
+
     if '?' in url:
         sep = '&'
     else:
@@ -102,7 +105,7 @@ def appendArgs(url, args):
     # `urlencode` returns `str` in both py27 and py3+. We need to convert it to six.text_type.
     if not isinstance(encoded_args, six.text_type):
         encoded_args = encoded_args.decode('utf-8')
-    return '%s%s%s' % (url, sep, encoded_args)
+    return '%s%s%s%s%s' % (url, sep, encoded_args, hash_sign, fragment)
 
 
 def toBase64(s):
-- 
2.43.0


From 966a88aa614b7444c3cd8c4ab81dbb62f58d52b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:17 +0000
Subject: [PATCH 02/54] fix: urinorm keeps blank query arguments and bytes that
 are not UTF-8

---
 openid/urinorm.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/openid/urinorm.py b/openid/urinorm.py
index 22b3dad..ea25568 100644
--- a/openid/urinorm.py
+++ b/openid/urinorm.py
@@ -4,7 +4,7 @@ from __future__ import unicode_literals
 import string
 
 import six
-from six.moves.urllib.parse import parse_qsl, quote, unquote, urlencode, urlsplit, urlunsplit
+from six.moves.urllib.parse import parse_qsl, quote, unquote, unquote_to_bytes, urlencode, urlsplit, urlunsplit
 
 from .oidutil import string_to_text
 
@@ -122,7 +122,7 @@ def urinorm(uri):
     # This is hackish. `unquote` and `quote` requires `str` in both py27 and py3+.
     if isinstance(path, str):
         # Python 3 branch
-        path = quote(unquote(path), safe='/' + SUB_DELIMS)
+        path = quote(unquote_to_bytes(path), safe='/' + SUB_DELIMS)
     else:
         # Python 2 branch
         path = quote(unquote(path.encode('utf-8')), safe=('/' + SUB_DELIMS).encode('utf-8')).decode('utf-8')
@@ -136,11 +136,13 @@ def urinorm(uri):
     # requires values to be convertible to native strings using `str()`.
     if isinstance(split_uri.query, str):
         # Python 3 branch
-        data = parse_qsl(split_uri.query)
+        # Keep also the arguments without a value and the percent encoded bytes which are not UTF-8
+        data = parse_qsl(split_uri.query, keep_blank_values=True, errors='surrogateescape')
+        query = urlencode(data, errors='surrogateescape')
     else:
         # Python 2 branch
-        data = parse_qsl(split_uri.query.encode('utf-8'))
-    query = urlencode(data)
+        data = parse_qsl(split_uri.query.encode('utf-8'), keep_blank_values=True)
+        query = urlencode(data)
     _check_disallowed_characters(query, 'query')
 
     # Normalize fragment
-- 
2.43.0


From 94fbc05d6a555379e3c91ca39a1c95a115d955e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:17 +0000
Subject: [PATCH 03/54] fix: urinorm refuses delimiters hidden in the host and
 keeps IP literals

---
 openid/urinorm.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/openid/urinorm.py b/openid/urinorm.py
index ea25568..f334430 100644
--- a/openid/urinorm.py
+++ b/openid/urinorm.py
@@ -85,16 +85,21 @@ def urinorm(uri):
     hostname = split_uri.hostname
     if hostname is None:
         hostname = ''
+    if split_uri.netloc.rpartition('@')[2].startswith('['):
+        # IP literal - the brackets were removed by urlsplit
+        hostname = '[' + hostname.lower() + ']'
     else:
-        hostname = hostname.lower()
-    # Unquote percent encoded characters
-    hostname = unquote(hostname)
-    # Quote IDN domain names
-    try:
-        # hostname: str --[idna]--> bytes --[utf-8]--> str
-        hostname = hostname.encode('idna').decode('utf-8')
-    except ValueError as error:
-        raise ValueError('Invalid hostname {!r}: {}'.format(hostname, error))
+        # Unquote percent encoded characters
+        hostname = unquote(hostname).lower()
+        # Quote IDN domain names
+        try:
+            # hostname: str --[idna]--> bytes --[utf-8]--> str
+            hostname = hostname.encode('idna').decode('utf-8')
+        except ValueError as error:
+            raise ValueError('Invalid hostname {!r}: {}'.format(hostname, error))
+        # The unquoted delimiters must not become a part of the URI structure
+        if set(hostname).intersection(set(GEN_DELIMS + PERCENT_ENCODING_CHARACTER)):
+            raise ValueError('Illegal characters in URI hostname: {}'.format(hostname))
     _check_disallowed_characters(hostname, 'hostname')
 
     try:
-- 
2.43.0


From 25bd4710f5ff576cdba291b11c59c7dfd3072f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:17 +0000
Subject: [PATCH 04/54] fix: urinorm refuses a port without host and keeps port
 zero

---
 openid/urinorm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openid/urinorm.py b/openid/urinorm.py
index f334430..54a02f8 100644
--- a/openid/urinorm.py
+++ b/openid/urinorm.py
@@ -112,13 +112,15 @@ def urinorm(uri):
         port = ''
 
     netloc = hostname
-    if port:
+    if port != '':
         netloc = netloc + ':' + six.text_type(port)
     userinfo_chunks = [i for i in (split_uri.username, split_uri.password) if i is not None]
     if userinfo_chunks:
         userinfo = ':'.join(userinfo_chunks)
         _check_disallowed_characters(userinfo, 'userinfo')
         netloc = userinfo + '@' + netloc
+    elif not hostname:
+        raise ValueError('Not an absolute URI: {!r}'.format(uri))
 
     # Normalize path
     path = split_uri.path
-- 
2.43.0


From b82cfae3423150b4aeff66178eba6a8ad33c4ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:17 +0000
Subject: [PATCH 05/54] fix: urinorm of a fragment is idempotent

---
 openid/urinorm.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/openid/urinorm.py b/openid/urinorm.py
index 54a02f8..0a6f689 100644
--- a/openid/urinorm.py
+++ b/openid/urinorm.py
@@ -153,7 +153,13 @@ def urinorm(uri):
     _check_disallowed_characters(query, 'query')
 
     # Normalize fragment
-    fragment = unquote(split_uri.fragment)
+    fragment = split_uri.fragment
+    if isinstance(fragment, str):
+        # Python 3 branch
+        fragment = quote(unquote_to_bytes(fragment), safe=':@/?' + SUB_DELIMS)
+    else:
+        # Python 2 branch
+        fragment = quote(unquote(fragment.encode('utf-8')), safe=(':@/?' + SUB_DELIMS).encode('utf-8')).decode('utf-8')
     _check_disallowed_characters(fragment, 'fragment')
 
     return urlunsplit((scheme, netloc, path, query, fragment))
-- 
2.43.0


From 7890aaea3fd2a681242984a8a95f26e892d697a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:17 +0000
Subject: [PATCH 06/54] fix: realms and URLs without host are not valid

---
 openid/server/trustroot.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/openid/server/trustroot.py b/openid/server/trustroot.py
index 349032f..ae3f759 100644
--- a/openid/server/trustroot.py
+++ b/openid/server/trustroot.py
@@ -93,6 +93,8 @@ def _parseURL(url):
         return None
 
     split_url = urlsplit(url)
+    if not split_url.hostname:
+        return None
 
     path = urlunsplit(('', '', split_url.path or '/', split_url.query, split_url.fragment))
 
-- 
2.43.0


From 98ece3293c5970fd452638c6548a778b5f192f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:17 +0000
Subject: [PATCH 07/54] fix: verifying return_to of a realm for all hosts does
 not fail with an assertion

---
 openid/server/trustroot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openid/server/trustroot.py b/openid/server/trustroot.py
index ae3f759..f37b5ac 100644
--- a/openid/server/trustroot.py
+++ b/openid/server/trustroot.py
@@ -426,8 +426,8 @@ def verifyReturnTo(realm_str, return_to, _vrfy=getAllowedReturnURLs):
     @since: 2.1.0
     """
     realm = TrustRoot.parse(realm_str)
-    if realm is None:
-        # The realm does not parse as a URL pattern
+    if realm is None or not realm.host:
+        # The realm does not parse as a URL pattern, or there is no host to run the discovery on
         return False
 
     try:
-- 
2.43.0


From a76b19cffdccbee72d71e3c875f7f902387f05b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:06 +0000
Subject: [PATCH 08/54] fix: SQL stores can be created with the default table
 names

---
 openid/store/sqlstore.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/openid/store/sqlstore.py b/openid/store/sqlstore.py
index 2d3b0b8..07ee265 100644
--- a/openid/store/sqlstore.py
+++ b/openid/store/sqlstore.py
@@ -99,10 +99,12 @@ class SQLStore(OpenIDStore):
         self.conn = conn
         self.cur = None
         self._statement_cache = {}
-        associations_table = string_to_text(
-            associations_table, "Binary values for associations_table are deprecated. Use text input instead.")
-        nonces_table = string_to_text(nonces_table,
-                                      "Binary values for nonces_table are deprecated. Use text input instead.")
+        if associations_table is not None:
+            associations_table = string_to_text(
+                associations_table, "Binary values for associations_table are deprecated. Use text input instead.")
+        if nonces_table is not None:
+            nonces_table = string_to_text(nonces_table,
+                                          "Binary values for nonces_table are deprecated. Use text input instead.")
         self._table_names = {
             'associations': associations_table or self.associations_table,
             'nonces': nonces_table or self.nonces_table,
-- 
2.43.0


From 5e56cdd2f384c1bd9aaf1989fe8521a6bea5fd8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:54 +0000
Subject: [PATCH 09/54] fix: file store names are safe for every server URL

---
 openid/store/filestore.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openid/store/filestore.py b/openid/store/filestore.py
index 33e35e0..f957fe0 100644
--- a/openid/store/filestore.py
+++ b/openid/store/filestore.py
@@ -163,6 +163,7 @@ class FileOpenIDStore(OpenIDStore):
             raise ValueError('Bad server URL: %r' % server_url)
 
         proto, rest = server_url.split('://', 1)
+        proto = _filenameEscape(proto)
         domain = _filenameEscape(rest.split('/', 1)[0])
         url_hash = _safe64(server_url)
         if handle:
@@ -318,13 +319,14 @@ class FileOpenIDStore(OpenIDStore):
         if abs(timestamp - time.time()) > nonce.SKEW:
             return False
 
-        if server_url:
+        if '://' in server_url:
             proto, rest = server_url.split('://', 1)
         else:
             # Create empty proto / rest values for empty server_url,
             # which is part of a consumer-generated nonce.
             proto, rest = '', ''
 
+        proto = _filenameEscape(proto)
         domain = _filenameEscape(rest.split('/', 1)[0])
         url_hash = _safe64(server_url)
         salt_hash = _safe64(salt)
-- 
2.43.0


From d08a36b6802418f4fd7845937e3f9b7c7e52723f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:21 +0000
Subject: [PATCH 10/54] fix: memory store does not offer expired associations
 of a server

---
 openid/store/memstore.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/openid/store/memstore.py b/openid/store/memstore.py
index 5587676..6d3488e 100644
--- a/openid/store/memstore.py
+++ b/openid/store/memstore.py
@@ -28,12 +28,14 @@ class ServerAssocs(object):
             return True
 
     def best(self):
-        """Returns association with the oldest issued date.
+        """Returns the most recently issued association which is not expired.
 
-        or None if there are no associations.
+        or None if there are no such associations.
         """
         best = None
         for assoc in self.assocs.values():
+            if assoc.getExpiresIn() == 0:
+                continue
             if best is None or best.issued < assoc.issued:
                 best = assoc
         return best
-- 
2.43.0


From ca5977358e70c64ff11f76f0d0edc248194e3bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:31 +0000
Subject: [PATCH 11/54] fix: associations issued in the same second do not
 break fetching the latest one

---
 openid/store/filestore.py | 3 ++-
 openid/store/sqlstore.py  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/openid/store/filestore.py b/openid/store/filestore.py
index f957fe0..f354bb1 100644
--- a/openid/store/filestore.py
+++ b/openid/store/filestore.py
@@ -8,6 +8,7 @@ import string
 import time
 from errno import EEXIST, ENOENT
 from hashlib import sha1
+from operator import itemgetter
 from tempfile import mkstemp
 
 from openid import oidutil
@@ -256,7 +257,7 @@ class FileOpenIDStore(OpenIDStore):
                     matching_associations.append(
                         (association.issued, association))
 
-            matching_associations.sort()
+            matching_associations.sort(key=itemgetter(0))
 
             # return the most recently issued one.
             if matching_associations:
diff --git a/openid/store/sqlstore.py b/openid/store/sqlstore.py
index 07ee265..3178f32 100644
--- a/openid/store/sqlstore.py
+++ b/openid/store/sqlstore.py
@@ -11,6 +11,7 @@ from __future__ import unicode_literals
 
 import re
 import time
+from operator import itemgetter
 
 import six
 
@@ -249,7 +250,7 @@ class SQLStore(OpenIDStore):
                     associations.append((assoc.issued, assoc))
 
             if associations:
-                associations.sort()
+                associations.sort(key=itemgetter(0))
                 return associations[-1][1]
             else:
                 return None
-- 
2.43.0


From 3157b9639d464a4635f5779d342a1746f07c3214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:57 +0000
Subject: [PATCH 12/54] fix: file store syncs the association it has written,
 not an empty file

---
 openid/store/filestore.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openid/store/filestore.py b/openid/store/filestore.py
index f354bb1..47ada63 100644
--- a/openid/store/filestore.py
+++ b/openid/store/filestore.py
@@ -190,6 +190,7 @@ class FileOpenIDStore(OpenIDStore):
         try:
             try:
                 tmp_file.write(association_s.encode('utf-8'))
+                tmp_file.flush()
                 os.fsync(tmp_file.fileno())
             finally:
                 tmp_file.close()
-- 
2.43.0


From 6ff4fa23842eea77f823fe21f0421fdc3e32ab98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:03 +0000
Subject: [PATCH 13/54] fix: forbidden namespace aliases in messages are
 reported as namespace errors

---
 openid/message.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/openid/message.py b/openid/message.py
index 554069f..dfb8fa1 100644
--- a/openid/message.py
+++ b/openid/message.py
@@ -86,6 +86,12 @@ class InvalidNamespace(KeyError):
     """
 
 
+class InvalidAlias(InvalidNamespace, AssertionError):
+    """
+    Raised if a namespace alias is not allowed by the specification
+    """
+
+
 # Sentinel used for Message implementation to indicate that getArg
 # should raise an exception instead of returning a default.
 no_default = object()
@@ -601,13 +607,13 @@ class NamespaceMap(object):
         """
         # Check that desired_alias is not an openid protocol field as
         # per the spec.
-        assert desired_alias not in OPENID_PROTOCOL_FIELDS, "%r is not an allowed namespace alias" % (desired_alias,)
+        if desired_alias in OPENID_PROTOCOL_FIELDS:
+            raise InvalidAlias("%r is not an allowed namespace alias" % (desired_alias,))
 
         # Check that desired_alias does not contain a period as per
         # the spec.
-        if isinstance(desired_alias, six.string_types):
-            assert '.' not in desired_alias, \
-                   "%r must not contain a dot" % (desired_alias,)
+        if isinstance(desired_alias, six.string_types) and '.' in desired_alias:
+            raise InvalidAlias("%r must not contain a dot" % (desired_alias,))
 
         # Check that there is not a namespace already defined for
         # the desired alias
-- 
2.43.0


From 8f231dd978b8f0ec73cb036d70998afb55869739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:03 +0000
Subject: [PATCH 14/54] fix: malformed answers of a provider to direct requests
 are fetching errors

---
 openid/consumer/consumer.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/openid/consumer/consumer.py b/openid/consumer/consumer.py
index 275a08a..ab837d8 100644
--- a/openid/consumer/consumer.py
+++ b/openid/consumer/consumer.py
@@ -202,7 +202,8 @@ from openid.association import Association, SessionNegotiator, default_negotiato
 from openid.consumer.discover import (OPENID_1_0_TYPE, OPENID_1_1_TYPE, OPENID_2_0_TYPE, DiscoveryFailure,
                                       OpenIDServiceEndpoint, discover)
 from openid.dh import DiffieHellman
-from openid.message import BARE_NS, IDENTIFIER_SELECT, OPENID1_NS, OPENID2_NS, OPENID_NS, Message, no_default
+from openid.message import (BARE_NS, IDENTIFIER_SELECT, OPENID1_NS, OPENID2_NS, OPENID_NS, InvalidNamespace,
+                            InvalidOpenIDNamespace, Message, no_default)
 from openid.oidutil import string_to_text
 from openid.store.nonce import mkNonce, split as splitNonce
 from openid.yadis.manager import Discovery
@@ -245,7 +246,10 @@ def _httpResponseToMessage(response, server_url):
     @raises ServerError: if the server returned an OpenID error.
     """
     # Should this function be named Message.fromHTTPResponse instead?
-    response_message = Message.fromKVForm(response.body)
+    try:
+        response_message = Message.fromKVForm(response.body)
+    except (UnicodeDecodeError, InvalidOpenIDNamespace, InvalidNamespace) as why:
+        raise fetchers.HTTPFetchingError('malformed response from server %s: %s' % (server_url, why))
     if response.status == 400:
         raise ServerError.fromMessage(response_message)
 
-- 
2.43.0


From 8f2d2dd26819179f19e3fbda8436c5e2e90bd5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:07 +0000
Subject: [PATCH 15/54] fix: consumer handles responses in the OpenID 1.1
 namespace

---
 openid/consumer/consumer.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/openid/consumer/consumer.py b/openid/consumer/consumer.py
index ab837d8..c7bb87b 100644
--- a/openid/consumer/consumer.py
+++ b/openid/consumer/consumer.py
@@ -202,8 +202,8 @@ from openid.association import Association, SessionNegotiator, default_negotiato
 from openid.consumer.discover import (OPENID_1_0_TYPE, OPENID_1_1_TYPE, OPENID_2_0_TYPE, DiscoveryFailure,
                                       OpenIDServiceEndpoint, discover)
 from openid.dh import DiffieHellman
-from openid.message import (BARE_NS, IDENTIFIER_SELECT, OPENID1_NS, OPENID2_NS, OPENID_NS, InvalidNamespace,
-                            InvalidOpenIDNamespace, Message, no_default)
+from openid.message import (BARE_NS, IDENTIFIER_SELECT, OPENID1_NS, OPENID2_NS, OPENID_NS, THE_OTHER_OPENID1_NS,
+                            InvalidNamespace, InvalidOpenIDNamespace, Message, no_default)
 from openid.oidutil import string_to_text
 from openid.store.nonce import mkNonce, split as splitNonce
 from openid.yadis.manager import Discovery
@@ -710,7 +710,7 @@ class GenericConsumer(object):
         # immediate mode by the presence of the user_setup_url
         # parameter.
         if message.isOpenID1():
-            user_setup_url = message.getArg(OPENID1_NS, 'user_setup_url')
+            user_setup_url = message.getArg(OPENID_NS, 'user_setup_url')
             if user_setup_url is not None:
                 raise SetupNeededError(user_setup_url)
 
@@ -830,11 +830,13 @@ class GenericConsumer(object):
         require_fields = {
             OPENID2_NS: basic_fields + ['op_endpoint'],
             OPENID1_NS: basic_fields + ['identity'],
+            THE_OTHER_OPENID1_NS: basic_fields + ['identity'],
         }
 
         require_sigs = {
             OPENID2_NS: basic_sig_fields + ['response_nonce', 'claimed_id', 'assoc_handle', 'op_endpoint'],
             OPENID1_NS: basic_sig_fields,
+            THE_OTHER_OPENID1_NS: basic_sig_fields,
         }
 
         for field in require_fields[message.getOpenIDNamespace()]:
@@ -963,7 +965,7 @@ class GenericConsumer(object):
 
         to_match = OpenIDServiceEndpoint()
         to_match.type_uris = [OPENID_1_1_TYPE]
-        to_match.local_id = resp_msg.getArg(OPENID1_NS, 'identity')
+        to_match.local_id = resp_msg.getArg(OPENID_NS, 'identity')
         # Restore delegate information from the initiation phase
         to_match.claimed_id = claimed_id
 
@@ -1329,7 +1331,7 @@ class GenericConsumer(object):
         """
         # If it's an OpenID 1 message, allow session_type to default
         # to None (which signifies "no-encryption")
-        session_type = assoc_response.getArg(OPENID1_NS, 'session_type')
+        session_type = assoc_response.getArg(OPENID_NS, 'session_type')
 
         # Handle the differences between no-encryption association
         # respones in OpenID 1 and 2:
-- 
2.43.0


From d6e27d09ee4eeb39088975f887f214b93896e315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:38 +0000
Subject: [PATCH 16/54] fix: a response with invalid namespaces is a failure,
 not an exception

---
 openid/consumer/consumer.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/openid/consumer/consumer.py b/openid/consumer/consumer.py
index c7bb87b..3ce7f9b 100644
--- a/openid/consumer/consumer.py
+++ b/openid/consumer/consumer.py
@@ -414,8 +414,12 @@ class Consumer(object):
 
         endpoint = self.session.get(self._token_key)
 
-        message = Message.fromPostArgs(query)
-        response = self.consumer.complete(message, endpoint, current_url)
+        try:
+            message = Message.fromPostArgs(query)
+        except (InvalidOpenIDNamespace, InvalidNamespace) as why:
+            response = FailureResponse(endpoint, six.text_type(why))
+        else:
+            response = self.consumer.complete(message, endpoint, current_url)
 
         try:
             del self.session[self._token_key]
-- 
2.43.0


From 5e8952667e25b4411af557d166a2d92d3ddbf57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:41 +0000
Subject: [PATCH 17/54] fix: malformed values and failing fetches make a
 response a failure, not an exception

---
 openid/consumer/consumer.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/openid/consumer/consumer.py b/openid/consumer/consumer.py
index 3ce7f9b..13b3326 100644
--- a/openid/consumer/consumer.py
+++ b/openid/consumer/consumer.py
@@ -535,6 +535,12 @@ class ProtocolError(ValueError):
     protocol. It is raised and caught internally to this file."""
 
 
+class MissingClaimedID(ProtocolError, RuntimeError):
+    """A protocol error arising when the claimed identifier of an OpenID 1
+    response is not known.
+    """
+
+
 class TypeURIMismatch(ProtocolError):
     """A protocol error arising from type URIs mismatching
     """
@@ -665,7 +671,9 @@ class GenericConsumer(object):
         else:
             try:
                 return self._doIdRes(message, endpoint, return_to)
-            except (ProtocolError, DiscoveryFailure) as why:
+            except (ValueError, DiscoveryFailure) as why:
+                # Besides protocol errors this covers values of the message
+                # which can not be parsed or encoded.
                 return FailureResponse(endpoint, six.text_type(why))
 
     def _completeInvalid(self, message, endpoint, _):
@@ -959,7 +967,7 @@ class GenericConsumer(object):
         claimed_id = resp_msg.getArg(BARE_NS, self.openid1_return_to_identifier_name)
 
         if endpoint is None and claimed_id is None:
-            raise RuntimeError(
+            raise MissingClaimedID(
                 'When using OpenID 1, the claimed ID must be supplied, '
                 'either by passing it through as a return_to parameter '
                 'or by using a session, and supplied to the GenericConsumer '
@@ -1058,7 +1066,10 @@ class GenericConsumer(object):
         @raises DiscoveryFailure: when discovery fails.
         """
         _LOGGER.info('Performing discovery on %s', claimed_id)
-        _, services = self._discover(claimed_id)
+        try:
+            _, services = self._discover(claimed_id)
+        except fetchers.HTTPFetchingError as why:
+            raise DiscoveryFailure('Error fetching %s: %s' % (claimed_id, six.text_type(why)), None)
         if not services:
             raise DiscoveryFailure('No OpenID information found at %s' %
                                    (claimed_id,), None)
-- 
2.43.0


From 6c47952acf2e1c901adcc14fa4049bed4e586acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:43 +0000
Subject: [PATCH 18/54] fix: OpenID 1 response without claimed identifier to a
 login begun with an OP identifier is a failure

---
 openid/consumer/consumer.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/openid/consumer/consumer.py b/openid/consumer/consumer.py
index 13b3326..a2cc9ac 100644
--- a/openid/consumer/consumer.py
+++ b/openid/consumer/consumer.py
@@ -966,14 +966,15 @@ class GenericConsumer(object):
     def _verifyDiscoveryResultsOpenID1(self, resp_msg, endpoint):
         claimed_id = resp_msg.getArg(BARE_NS, self.openid1_return_to_identifier_name)
 
-        if endpoint is None and claimed_id is None:
+        if claimed_id is None and endpoint is not None:
+            # It is still not known if the login began with an OP identifier.
+            claimed_id = endpoint.claimed_id
+        if claimed_id is None:
             raise MissingClaimedID(
                 'When using OpenID 1, the claimed ID must be supplied, '
                 'either by passing it through as a return_to parameter '
                 'or by using a session, and supplied to the GenericConsumer '
                 'as the argument to complete()')
-        elif endpoint is not None and claimed_id is None:
-            claimed_id = endpoint.claimed_id
 
         to_match = OpenIDServiceEndpoint()
         to_match.type_uris = [OPENID_1_1_TYPE]
-- 
2.43.0


From f930df38be41b76e135e7d55a79ad182a877f663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:51 +0000
Subject: [PATCH 19/54] fix: shared secrets and keys are hashed in their
 shortest form

The shared secret returned by cryptography is padded to the length of the
modulus. A secret with leading zero bytes was hashed with them, so the
association could not be established with other implementations.
---
 openid/cryptutil.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openid/cryptutil.py b/openid/cryptutil.py
index 7e8cd0a..f56e540 100644
--- a/openid/cryptutil.py
+++ b/openid/cryptutil.py
@@ -43,6 +43,9 @@ def fix_btwoc(value):
     """
     # Conversion to bytearray is python 2/3 compatible
     array = bytearray(value)
+    # The output must be the shortest representation, leading zero bytes are dropped.
+    while len(array) > 1 and array[0] == 0:
+        del array[0]
     # First bit must be zero. If it isn't, the bytes must be prepended by zero byte.
     if array[0] > 127:
         array = bytearray([0]) + array
-- 
2.43.0


From e0dff09f07939236eb55df15eb485476b88758c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:42 +0000
Subject: [PATCH 20/54] fix: attribute exchange response which is not signed is
 treated as absent

FetchResponse.fromSuccessResponse and StoreResponse.fromSuccessResponse
raised AttributeError if the arguments were not signed.
---
 openid/extensions/ax.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/openid/extensions/ax.py b/openid/extensions/ax.py
index e6ccaf2..b0d5080 100644
--- a/openid/extensions/ax.py
+++ b/openid/extensions/ax.py
@@ -699,6 +699,9 @@ class FetchResponse(AXKeyValueMessage):
         """
         self = cls()
         ax_args = success_response.extensionResponse(self.ns_uri, signed)
+        if ax_args is None:
+            # The arguments are not signed
+            return None
 
         try:
             self.parseExtensionArgs(ax_args)
@@ -813,6 +816,9 @@ class StoreResponse(AXMessage):
         """
         self = cls()
         ax_args = success_response.extensionResponse(self.ns_uri, signed)
+        if ax_args is None:
+            # The arguments are not signed
+            return None
 
         try:
             self.parseExtensionArgs(ax_args)
-- 
2.43.0


From f2019f73a64c56b9fe8b4f6c429e8a916f0b9658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:42 +0000
Subject: [PATCH 21/54] fix: attribute exchange store response can be parsed

StoreResponse.fromSuccessResponse always failed, since the class had no
method to parse the arguments.
---
 openid/extensions/ax.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/openid/extensions/ax.py b/openid/extensions/ax.py
index b0d5080..62285d8 100644
--- a/openid/extensions/ax.py
+++ b/openid/extensions/ax.py
@@ -795,6 +795,27 @@ class StoreResponse(AXMessage):
 
         return ax_args
 
+    def parseExtensionArgs(self, ax_args):
+        """Parse attribute exchange store response arguments into this object.
+
+        @param ax_args: The attribute exchange store response arguments, with namespacing removed.
+        @type ax_args: Dict[six.text_type, six.text_type]
+
+        @raises NotAXMessage: When there is no mode value in ax_args at all.
+
+        @raises AXError: When mode is not a mode of a store response.
+        """
+        mode = ax_args.get('mode')
+        if not mode:
+            raise NotAXMessage()
+        if mode not in (self.SUCCESS_MODE, self.FAILURE_MODE):
+            raise AXError('Expected mode %r or %r; got %r' % (self.SUCCESS_MODE, self.FAILURE_MODE, mode))
+        self.mode = mode
+        if self.succeeded():
+            self.error_message = None
+        else:
+            self.error_message = ax_args.get('error')
+
     @classmethod
     def fromSuccessResponse(cls, success_response, signed=True):
         """Construct a StoreResponse object from an OpenID library
-- 
2.43.0


From 90dbebf0598b7e70c75e2c0cc9794afb1363bab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:45 +0000
Subject: [PATCH 22/54] fix: attribute exchange fetch request sends its update
 URL

---
 openid/extensions/ax.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openid/extensions/ax.py b/openid/extensions/ax.py
index 62285d8..2fbd768 100644
--- a/openid/extensions/ax.py
+++ b/openid/extensions/ax.py
@@ -261,6 +261,9 @@ class FetchRequest(AXMessage):
         if if_available:
             ax_args['if_available'] = ','.join(if_available)
 
+        if self.update_url:
+            ax_args['update_url'] = self.update_url
+
         return ax_args
 
     def getRequiredAttrs(self):
-- 
2.43.0


From 58ffd89ffe6d0bb795fcb072727ce0476622a802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:49 +0000
Subject: [PATCH 23/54] fix: update URL with a malformed realm is an attribute
 exchange error

---
 openid/extensions/ax.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/openid/extensions/ax.py b/openid/extensions/ax.py
index 2fbd768..915edbd 100644
--- a/openid/extensions/ax.py
+++ b/openid/extensions/ax.py
@@ -318,6 +318,8 @@ class FetchRequest(AXMessage):
                 raise AXError("Cannot validate update_url %r against absent realm" % self.update_url)
 
             tr = TrustRoot.parse(realm)
+            if tr is None:
+                raise AXError("Cannot validate update_url %r against invalid realm %r" % (self.update_url, realm))
             if not tr.validateURL(self.update_url):
                 raise AXError("Update URL %r failed validation against realm %r" %
                               (self.update_url, realm,))
-- 
2.43.0


From b0790d7c40cb56e39912e0d908d41e9c3410c6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:29 +0000
Subject: [PATCH 24/54] fix: refusal of an immediate request is possible for
 OpenID 1 and without identity

The request for the setup URL was built as an OpenID 2 request, so refusing
an OpenID 1 immediate request raised ProtocolError, and refusing an OpenID 2
immediate request without identifiers raised AssertionError.
---
 openid/server/server.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/openid/server/server.py b/openid/server/server.py
index 95b847c..ab41b35 100644
--- a/openid/server/server.py
+++ b/openid/server/server.py
@@ -897,10 +897,7 @@ class CheckIDRequest(OpenIDRequest):
                 setup_request = self.__class__(
                     self.identity, self.return_to, self.trust_root,
                     immediate=False, assoc_handle=self.assoc_handle,
-                    op_endpoint=self.op_endpoint, claimed_id=self.claimed_id)
-
-                # XXX: This API is weird.
-                setup_request.message = self.message
+                    op_endpoint=self.op_endpoint, claimed_id=self.claimed_id, message=self.message)
 
                 setup_url = setup_request.encodeToURL(server_url)
                 response.fields.setArg(OPENID_NS, 'user_setup_url', setup_url)
@@ -925,9 +922,11 @@ class CheckIDRequest(OpenIDRequest):
         # That's right, code imported from alternate realities all for the
         # love of you, id_res/user_setup_url.
         q = {'mode': self.mode,
-             'identity': self.identity,
-             'claimed_id': self.claimed_id,
              'return_to': self.return_to}
+        if self.identity is not None:
+            q['identity'] = self.identity
+        if self.claimed_id is not None:
+            q['claimed_id'] = self.claimed_id
         if self.trust_root:
             if self.message.isOpenID1():
                 q['trust_root'] = self.trust_root
-- 
2.43.0


From f5f03112db960f8257094030578153b12375a5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:09 +0000
Subject: [PATCH 25/54] fix: a request with several invalid namespaces is a
 protocol error

Building the message of the ProtocolError failed with InvalidNamespace if
another namespace of a request with invalid OpenID namespace was invalid.
---
 openid/server/server.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openid/server/server.py b/openid/server/server.py
index ab41b35..93e9c47 100644
--- a/openid/server/server.py
+++ b/openid/server/server.py
@@ -1440,7 +1440,8 @@ class Decoder(object):
             # override the bad ns value to build a Message out of it.  Kinda
             # kludgy, since it's made of lies, but the parts that aren't lies
             # are more useful than a 'None'.
-            query = query.copy()
+            # Other namespaces may be invalid as well, keep only bare parts of query.
+            query = {key: value for key, value in query.items() if key.count('.') < 2}
             query['openid.ns'] = OPENID2_NS
             message = Message.fromPostArgs(query)
             raise ProtocolError(message, six.text_type(err))
-- 
2.43.0


From ec8b5c714ebb52910e6d5512dc8c224eec2fc059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:00 +0000
Subject: [PATCH 26/54] fix: invalid Diffie-Hellman values in an association
 request are a protocol error

A public key which is empty or not valid in the group raised ValueError out
of Server.handleRequest, and parameters refused by OpenSSL raised
InternalError out of Server.decodeRequest.
---
 openid/dh.py            | 11 +++++++++--
 openid/server/server.py |  9 +++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/openid/dh.py b/openid/dh.py
index 1b6f34c..f5ec27d 100644
--- a/openid/dh.py
+++ b/openid/dh.py
@@ -5,6 +5,7 @@ import base64
 import warnings
 
 import six
+from cryptography.exceptions import InternalError
 from cryptography.hazmat.backends import default_backend
 from cryptography.hazmat.primitives import hashes
 from cryptography.hazmat.primitives.asymmetric.dh import DHParameterNumbers, DHPublicNumbers
@@ -51,7 +52,10 @@ class DiffieHellman(object):
 
         self.parameter_numbers = DHParameterNumbers(modulus, generator)
         parameters = self.parameter_numbers.parameters(default_backend())
-        self.private_key = parameters.generate_private_key()
+        try:
+            self.private_key = parameters.generate_private_key()
+        except InternalError:
+            raise ValueError("Diffie-Hellman parameters are not valid.")
 
     @classmethod
     def fromDefaults(cls):
@@ -125,7 +129,10 @@ class DiffieHellman(object):
         @rtype: six.binary_type
         """
         public_numbers = DHPublicNumbers(cryptutil.base64ToLong(public_key), self.parameter_numbers)
-        return self.private_key.exchange(public_numbers.public_key(default_backend()))
+        try:
+            return self.private_key.exchange(public_numbers.public_key(default_backend()))
+        except InternalError:
+            raise ValueError("Public key value is not valid for this exchange.")
 
     def xorSecret(self, composite, secret, hash_func):
         warnings.warn("Method 'xorSecret' is deprecated, use 'xor_secret' instead.", DeprecationWarning)
diff --git a/openid/server/server.py b/openid/server/server.py
index 93e9c47..4945a0e 100644
--- a/openid/server/server.py
+++ b/openid/server/server.py
@@ -504,14 +504,19 @@ class AssociateRequest(OpenIDRequest):
             to the consumer's X{public key} if appropriate.
         @returntype: L{OpenIDResponse}
         """
+        try:
+            session_args = self.session.answer(assoc.secret)
+        except ValueError as error:
+            raise ProtocolError(self.message, 'Error answering %s session: %s' %
+                                (self.session.session_type, six.text_type(error)))
+
         response = OpenIDResponse(self)
         response.fields.updateArgs(OPENID_NS, {
             'expires_in': '%d' % (assoc.getExpiresIn(),),
             'assoc_type': self.assoc_type,
             'assoc_handle': assoc.handle,
         })
-        response.fields.updateArgs(OPENID_NS,
-                                   self.session.answer(assoc.secret))
+        response.fields.updateArgs(OPENID_NS, session_args)
 
         if not (self.session.session_type == 'no-encryption' and self.message.isOpenID1()):
             # The session type "no-encryption" did not have a name
-- 
2.43.0


From ae8c058c54624592aab606cebf9085582b1d9ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:26 +0000
Subject: [PATCH 27/54] fix: values with newlines are not an unexpected error
 of encoding responses

Errors with an association type containing newline could not be encoded, and
a response which can't be expressed in key-value form raised KVFormError
instead of documented EncodingError.
---
 openid/server/server.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/openid/server/server.py b/openid/server/server.py
index 4945a0e..2934220 100644
--- a/openid/server/server.py
+++ b/openid/server/server.py
@@ -488,7 +488,7 @@ class AssociateRequest(OpenIDRequest):
                                 (session_class.session_type, six.text_type(why)))
 
         if assoc_type not in session.allowed_assoc_types:
-            fmt = 'Session type %s does not support association type %s'
+            fmt = 'Session type %s does not support association type %r'
             raise ProtocolError(message, fmt % (session_type, assoc_type))
 
         self = klass(session, assoc_type, message=message)
@@ -1348,7 +1348,11 @@ class Encoder(object):
         """
         encode_as = response.whichEncoding()
         if encode_as == ENCODE_KVFORM:
-            wr = self.responseFactory(body=response.encodeToKVForm())
+            try:
+                body = response.encodeToKVForm()
+            except kvform.KVFormError as err:
+                raise EncodingError(response, explanation=six.text_type(err))
+            wr = self.responseFactory(body=body)
             if isinstance(response, Exception):
                 wr.code = HTTP_ERROR
         elif encode_as == ENCODE_URL:
-- 
2.43.0


From 794db150f0ed29268d3bdf4a047473d090249a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:52 +0000
Subject: [PATCH 28/54] fix: server can be created without endpoint URL

The endpoint URL is optional, but leaving it out raised AssertionError.
---
 openid/server/server.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/openid/server/server.py b/openid/server/server.py
index 2934220..27386e7 100644
--- a/openid/server/server.py
+++ b/openid/server/server.py
@@ -1574,8 +1574,10 @@ class Server(object):
                           "for OpenID 2.0 servers" %
                           (self.__class__.__module__, self.__class__.__name__),
                           stacklevel=2)
-        self.op_endpoint = string_to_text(op_endpoint,
-                                          "Binary values for op_endpoint are deprecated. Use text input instead.")
+        if op_endpoint is not None:
+            op_endpoint = string_to_text(op_endpoint,
+                                         "Binary values for op_endpoint are deprecated. Use text input instead.")
+        self.op_endpoint = op_endpoint
 
     def handleRequest(self, request):
         """Handle a request.
-- 
2.43.0


From 05d3142edaa5121f749700003f77f3db090635c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:19 +0000
Subject: [PATCH 29/54] fix: refusal of an association type is sent with an
 error status

The answer is a direct error response, which has status 400. Relying parties
did not try the proposed association type, since the status was 200.
---
 openid/server/server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openid/server/server.py b/openid/server/server.py
index 27386e7..e999974 100644
--- a/openid/server/server.py
+++ b/openid/server/server.py
@@ -1353,7 +1353,7 @@ class Encoder(object):
             except kvform.KVFormError as err:
                 raise EncodingError(response, explanation=six.text_type(err))
             wr = self.responseFactory(body=body)
-            if isinstance(response, Exception):
+            if isinstance(response, Exception) or response.fields.hasKey(OPENID_NS, 'error'):
                 wr.code = HTTP_ERROR
         elif encode_as == ENCODE_URL:
             location = response.encodeToURL()
-- 
2.43.0


From aa59ac4a885c9ab22f508f9d05096e2e296e44fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:33 +0000
Subject: [PATCH 30/54] fix: YadisServiceManager is iterable under Python 3

---
 openid/yadis/manager.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openid/yadis/manager.py b/openid/yadis/manager.py
index 4da7c64..22cc303 100644
--- a/openid/yadis/manager.py
+++ b/openid/yadis/manager.py
@@ -39,6 +39,9 @@ class YadisServiceManager(object):
         else:
             return self._current
 
+    # Python 3 name of the iterator method
+    __next__ = next
+
     def current(self):
         """Return the current service.
 
-- 
2.43.0


From 78089ea62bfd68bcafca5aa035359a404d1b551d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:08 +0000
Subject: [PATCH 31/54] fix: malformed canonical IDs and XRIs are rejected with
 XRDSError

---
 openid/yadis/etxrd.py | 11 ++++++++---
 openid/yadis/xri.py   |  4 ++++
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/openid/yadis/etxrd.py b/openid/yadis/etxrd.py
index 9e97e4c..cdbe922 100644
--- a/openid/yadis/etxrd.py
+++ b/openid/yadis/etxrd.py
@@ -171,7 +171,7 @@ def getCanonicalID(iname, xrd_tree):
     xrd_list.reverse()
 
     try:
-        canonicalID = xri.XRI(xrd_list[0].findall(canonicalID_tag)[0].text)
+        canonicalID = xri.XRI(xrd_list[0].findall(canonicalID_tag)[0].text or '')
     except IndexError:
         return None
 
@@ -179,14 +179,19 @@ def getCanonicalID(iname, xrd_tree):
 
     for xrd in xrd_list[1:]:
         # XXX: can't use rsplit until we require python >= 2.4.
+        if '!' not in childID:
+            raise XRDSFraud("%r can not come from another XRD" % (childID,))
         parent_sought = childID[:childID.rindex('!')]
-        parent = xri.XRI(xrd.findtext(canonicalID_tag))
+        parent = xri.XRI(xrd.findtext(canonicalID_tag) or '')
         if parent_sought != parent.lower():
             raise XRDSFraud("%r can not come from %s" % (childID, parent))
 
         childID = parent_sought
 
-    root = xri.rootAuthority(iname)
+    try:
+        root = xri.rootAuthority(iname)
+    except ValueError as why:
+        raise XRDSError("Malformed XRI %r: %s" % (iname, why))
     if not xri.providerIsAuthoritative(root, childID):
         raise XRDSFraud("%r can not come from root %r" % (childID, root))
 
diff --git a/openid/yadis/xri.py b/openid/yadis/xri.py
index 4712c6d..30ca66a 100644
--- a/openid/yadis/xri.py
+++ b/openid/yadis/xri.py
@@ -85,6 +85,8 @@ def providerIsAuthoritative(providerID, canonicalID):
     @returntype: bool
     """
     # XXX: can't use rsplit until we require python >= 2.4.
+    if '!' not in canonicalID:
+        return False
     lastbang = canonicalID.rindex('!')
     parent = canonicalID[:lastbang]
     return parent == providerID
@@ -103,6 +105,8 @@ def rootAuthority(xri):
     if xri.startswith('xri://'):
         xri = xri[6:]
     authority = xri.split('/', 1)[0]
+    if not authority:
+        raise ValueError('XRI without authority')
     if authority[0] == '(':
         # Cross-reference.
         # XXX: This is incorrect if someone nests cross-references so there
-- 
2.43.0


From bfbfda3d032ad5b48f1bebf7aef09e20c7bd9b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:08 +0000
Subject: [PATCH 32/54] fix: root authority of cross-references with slashes or
 upper-case letters

---
 openid/yadis/etxrd.py | 2 +-
 openid/yadis/xri.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/openid/yadis/etxrd.py b/openid/yadis/etxrd.py
index cdbe922..e54da43 100644
--- a/openid/yadis/etxrd.py
+++ b/openid/yadis/etxrd.py
@@ -192,7 +192,7 @@ def getCanonicalID(iname, xrd_tree):
         root = xri.rootAuthority(iname)
     except ValueError as why:
         raise XRDSError("Malformed XRI %r: %s" % (iname, why))
-    if not xri.providerIsAuthoritative(root, childID):
+    if not xri.providerIsAuthoritative(root.lower(), childID):
         raise XRDSFraud("%r can not come from root %r" % (childID, root))
 
     return canonicalID
diff --git a/openid/yadis/xri.py b/openid/yadis/xri.py
index 30ca66a..6c198c0 100644
--- a/openid/yadis/xri.py
+++ b/openid/yadis/xri.py
@@ -113,7 +113,7 @@ def rootAuthority(xri):
         #   is another close-paren in there.  Hopefully nobody does that
         #   before we have a real xriparse function.  Hopefully nobody does
         #   that *ever*.
-        root = authority[:authority.index(')') + 1]
+        root = xri[:xri.index(')') + 1]
     elif authority[0] in XRI_AUTHORITIES:
         # Other XRI reference.
         root = authority[0]
-- 
2.43.0


From f977ca7a630f1d09090ef6b977198da6819d9e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:08 +0000
Subject: [PATCH 33/54] fix: an empty Type element in an XRDS document broke
 discovery

---
 openid/yadis/etxrd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openid/yadis/etxrd.py b/openid/yadis/etxrd.py
index e54da43..e2aefa2 100644
--- a/openid/yadis/etxrd.py
+++ b/openid/yadis/etxrd.py
@@ -278,7 +278,7 @@ def getTypeURIs(service_element):
     """
     output = []
     for type_element in service_element.findall(type_tag):
-        type_uri = type_element.text
+        type_uri = type_element.text or ''
         # Attribute `text` returns str in both python 2 and 3, convert to text_type in 2.7
         if not isinstance(type_uri, six.text_type):
             type_uri = type_uri.decode('utf-8')
-- 
2.43.0


From c3bd955499a0181fd3e6d859058b0faf8ed8cabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:08 +0000
Subject: [PATCH 34/54] fix: unknown charset in the content type broke
 discovery

---
 openid/yadis/discover.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openid/yadis/discover.py b/openid/yadis/discover.py
index c4678a7..9b40c38 100644
--- a/openid/yadis/discover.py
+++ b/openid/yadis/discover.py
@@ -138,7 +138,8 @@ def whereIsYadis(resp):
 
             try:
                 buff = StringIO(resp.body.decode(encoding))
-            except UnicodeError:
+            except (LookupError, ValueError):
+                # Unknown or malformed encoding, or body not in that encoding.
                 # Keep encoded version in case yadis location can be found before encoding shut this up.
                 # Possible errors will be caught lower.
                 buff = BytesIO(resp.body)
-- 
2.43.0


From 28dba86f267972d2e6f95c1f458ec4c958fa0fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:08 +0000
Subject: [PATCH 35/54] fix: identifiers which can not be parsed are refused
 with DiscoveryFailure

---
 openid/consumer/discover.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/openid/consumer/discover.py b/openid/consumer/discover.py
index 8689bf7..b9f49b2 100644
--- a/openid/consumer/discover.py
+++ b/openid/consumer/discover.py
@@ -423,6 +423,8 @@ def discoverXRI(iname):
             endpoints.extend(flt.getServiceEndpoints(iname, service_element))
     except XRDSError:
         _LOGGER.info('xrds error on %s', iname)
+    except UnicodeError as why:
+        raise DiscoveryFailure('Invalid identifier: %s' % six.text_type(why), None)
 
     for endpoint in endpoints:
         # Is there a way to pass this through the filter to the endpoint
@@ -449,7 +451,10 @@ def discoverNoYadis(uri):
 
 
 def discoverURI(uri):
-    parsed = urlparse(uri)
+    try:
+        parsed = urlparse(uri)
+    except ValueError as why:
+        raise DiscoveryFailure('Invalid identifier: %s' % six.text_type(why), None)
     if parsed[0] and parsed[1]:
         if parsed[0] not in ['http', 'https']:
             raise DiscoveryFailure('URI scheme is not HTTP or HTTPS', None)
-- 
2.43.0


From bab711142a5c4ac65a802a36e52efd52cfff1de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:08 +0000
Subject: [PATCH 36/54] fix: negative count of attribute values is refused

---
 openid/extensions/ax.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/openid/extensions/ax.py b/openid/extensions/ax.py
index 915edbd..58a6d21 100644
--- a/openid/extensions/ax.py
+++ b/openid/extensions/ax.py
@@ -513,6 +513,8 @@ class AXKeyValueMessage(AXMessage):
                     values = [value]
             else:
                 count = int(count_s)
+                if count < 0:
+                    raise AXError("Count of %r must not be negative, got %r" % (alias, count_s))
                 values = []
                 for i in range(1, count + 1):
                     value_key = 'value.%s.%d' % (alias, i)
-- 
2.43.0


From f218b893b30c493422d886100390de300efab2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:11 +0000
Subject: [PATCH 37/54] fix: authentication time with a line end or other
 digits is malformed

---
 openid/extensions/draft/pape2.py | 2 +-
 openid/extensions/pape.py        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/openid/extensions/draft/pape2.py b/openid/extensions/draft/pape2.py
index 6e7e456..984d1f2 100644
--- a/openid/extensions/draft/pape2.py
+++ b/openid/extensions/draft/pape2.py
@@ -35,7 +35,7 @@ AUTH_MULTI_FACTOR = \
 AUTH_PHISHING_RESISTANT = \
     'http://schemas.openid.net/pape/policies/2007/06/phishing-resistant'
 
-TIME_VALIDATOR = re.compile(r'^\d\d\d\d-\d\d-\d\dT\d\d:\d\d:\d\dZ$')
+TIME_VALIDATOR = re.compile(r'^[0-9]{4}-[0-9]{2}-[0-9]{2}T[0-9]{2}:[0-9]{2}:[0-9]{2}Z\Z')
 
 
 class Request(Extension):
diff --git a/openid/extensions/pape.py b/openid/extensions/pape.py
index b2543fa..b7becb9 100644
--- a/openid/extensions/pape.py
+++ b/openid/extensions/pape.py
@@ -36,7 +36,7 @@ AUTH_PHISHING_RESISTANT = \
 AUTH_NONE = \
     'http://schemas.openid.net/pape/policies/2007/06/none'
 
-TIME_VALIDATOR = re.compile(r'^\d\d\d\d-\d\d-\d\dT\d\d:\d\d:\d\dZ$')
+TIME_VALIDATOR = re.compile(r'^[0-9]{4}-[0-9]{2}-[0-9]{2}T[0-9]{2}:[0-9]{2}:[0-9]{2}Z\Z')
 
 LEVELS_NIST = 'http://csrc.nist.gov/publications/nistpubs/800-63/SP800-63V1_0_2.pdf'
 LEVELS_JISA = 'http://www.jisa.or.jp/spec/auth_level.html'
-- 
2.43.0


From a5ce96615622491be4a2a63619d2bd32db9e5908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:11 +0000
Subject: [PATCH 38/54] fix: assurance level types under the name of a default
 one can be parsed

---
 openid/extensions/pape.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/openid/extensions/pape.py b/openid/extensions/pape.py
index b7becb9..283a60a 100644
--- a/openid/extensions/pape.py
+++ b/openid/extensions/pape.py
@@ -250,6 +250,8 @@ class Request(PAPEExtension):
                         raise ValueError('preferred auth level %r is not '
                                          'defined in this message' % (alias,))
                 else:
+                    # The message may use a default alias for another type
+                    self.auth_level_aliases[alias] = uri
                     self.addAuthLevel(uri, alias)
 
     def preferredTypes(self, supported_types):
@@ -439,6 +441,8 @@ class Response(PAPEExtension):
                         raise ValueError(
                             'Undefined auth level alias: %r' % (alias,))
                 else:
+                    # The message may use a default alias for another type
+                    self.auth_level_aliases[alias] = uri
                     self.setAuthLevel(uri, val, alias)
 
         auth_time = args.get('auth_time')
-- 
2.43.0


From ceddf6e53db566c81fd7629a3d3f6b148701d725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:11 +0000
Subject: [PATCH 39/54] fix: assurance level out of range is refused in strict
 mode

---
 openid/extensions/draft/pape2.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openid/extensions/draft/pape2.py b/openid/extensions/draft/pape2.py
index 984d1f2..92fbd26 100644
--- a/openid/extensions/draft/pape2.py
+++ b/openid/extensions/draft/pape2.py
@@ -249,6 +249,9 @@ class Response(Extension):
             else:
                 if 0 <= nist_level < 5:
                     self.nist_auth_level = nist_level
+                elif strict:
+                    raise ValueError('nist_auth_level must be an integer between '
+                                     'zero and four, inclusive')
 
         auth_time = args.get('auth_time')
         if auth_time:
-- 
2.43.0


From be77832cf2e7bc6a48d69d94bb25bde1c1620e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:34 +0000
Subject: [PATCH 40/54] fix: authentication policies in OpenID 1 messages are
 understood

---
 openid/extensions/pape.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/openid/extensions/pape.py b/openid/extensions/pape.py
index 283a60a..7a5852c 100644
--- a/openid/extensions/pape.py
+++ b/openid/extensions/pape.py
@@ -7,12 +7,14 @@ Extension 1.0, Draft 5
 """
 from __future__ import unicode_literals
 
+import logging
 import re
 import warnings
 
 import six
 
 from openid.extension import Extension
+from openid.message import NamespaceAliasRegistrationError, registerNamespaceAlias
 
 __all__ = [
     'Request',
@@ -25,8 +27,16 @@ __all__ = [
     'LEVELS_JISA',
 ]
 
+_LOGGER = logging.getLogger(__name__)
+
 ns_uri = "http://specs.openid.net/extensions/pape/1.0"
 
+# Extensions are not declared in OpenID 1 messages
+try:
+    registerNamespaceAlias(ns_uri, 'pape')
+except NamespaceAliasRegistrationError as e:
+    _LOGGER.exception('registerNamespaceAlias(%r, %r) failed: %s', ns_uri, 'pape', e)
+
 AUTH_MULTI_FACTOR_PHYSICAL = \
     'http://schemas.openid.net/pape/policies/2007/06/multi-factor-physical'
 AUTH_MULTI_FACTOR = \
-- 
2.43.0


From 393a8fe85a547a211b80c7cbb8109efcfa9a1b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:25 +0000
Subject: [PATCH 41/54] fix: OpenID 2 request without return_to is possible

---
 openid/consumer/consumer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/openid/consumer/consumer.py b/openid/consumer/consumer.py
index a2cc9ac..962dbcb 100644
--- a/openid/consumer/consumer.py
+++ b/openid/consumer/consumer.py
@@ -1577,8 +1577,9 @@ class AuthRequest(object):
         else:
             realm_key = 'realm'
 
-        message.updateArgs(OPENID_NS,
-                           {realm_key: realm, 'mode': mode, 'return_to': return_to})
+        message.updateArgs(OPENID_NS, {realm_key: realm, 'mode': mode})
+        if return_to:
+            message.setArg(OPENID_NS, 'return_to', return_to)
 
         if not self._anonymous:
             if self.endpoint.isOPIdentifier():
-- 
2.43.0


From ed6a080b79120757b42ea8fe2a65b9c4b40d4b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:28 +0000
Subject: [PATCH 42/54] fix: empty local identifier of a discovered service
 stands for the claimed identifier

---
 openid/consumer/discover.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/openid/consumer/discover.py b/openid/consumer/discover.py
index b9f49b2..d9cb1ba 100644
--- a/openid/consumer/discover.py
+++ b/openid/consumer/discover.py
@@ -115,14 +115,7 @@ class OpenIDServiceEndpoint(object):
     def getLocalID(self):
         """Return the identifier that should be sent as the
         openid.identity parameter to the server."""
-        # I looked at this conditional and thought "ah-hah! there's the bug!"
-        # but Python actually makes that one big expression somehow, i.e.
-        # "x is x is x" is not the same thing as "(x is x) is x".
-        # That's pretty weird, dude.  -- kmt, 1/07
-        if (self.local_id is self.canonicalID is None):
-            return self.claimed_id
-        else:
-            return self.local_id or self.canonicalID
+        return self.local_id or self.canonicalID or self.claimed_id
 
     @classmethod
     def fromBasicServiceEndpoint(cls, endpoint):
-- 
2.43.0


From e854fe2a6cee3ef685a1caca1918ddce0f0a5737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:08 +0000
Subject: [PATCH 43/54] fix: discovered services have the normalised claimed
 identifier

---
 openid/consumer/discover.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/openid/consumer/discover.py b/openid/consumer/discover.py
index d9cb1ba..2722e55 100644
--- a/openid/consumer/discover.py
+++ b/openid/consumer/discover.py
@@ -457,6 +457,10 @@ def discoverURI(uri):
     uri = normalizeURL(uri)
     claimed_id, openid_services = discoverYadis(uri)
     claimed_id = normalizeURL(claimed_id)
+    for service in openid_services:
+        # Services of an OP identifier have no claimed identifier
+        if service.claimed_id is not None:
+            service.claimed_id = claimed_id
     return claimed_id, openid_services
 
 
-- 
2.43.0


From 6da35478708fd611c9f4469559a8dffb1754c799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:42 +0000
Subject: [PATCH 44/54] fix: discovered services are ordered by type as
 documented

---
 openid/consumer/discover.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/openid/consumer/discover.py b/openid/consumer/discover.py
index 2722e55..c041516 100644
--- a/openid/consumer/discover.py
+++ b/openid/consumer/discover.py
@@ -342,20 +342,14 @@ def arrangeByType(service_list, preferred_types):
 
 
 def getOPOrUserServices(openid_services):
-    """Extract OP Identifier services.  If none found, return the
-    rest, sorted with most preferred first according to
+    """Sort services with OP Identifier services first and the rest
+    with most preferred first according to
     OpenIDServiceEndpoint.openid_type_uris.
 
     openid_services is a list of OpenIDServiceEndpoint objects.
 
     Returns a list of OpenIDServiceEndpoint objects."""
-
-    op_services = arrangeByType(openid_services, [OPENID_IDP_2_0_TYPE])
-
-    openid_services = arrangeByType(openid_services,
-                                    OpenIDServiceEndpoint.openid_type_uris)
-
-    return op_services or openid_services
+    return arrangeByType(openid_services, OpenIDServiceEndpoint.openid_type_uris)
 
 
 def discoverYadis(uri):
-- 
2.43.0


From 448b35d69668cff357f285d96f1503ade9ce544f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:38 +0000
Subject: [PATCH 45/54] fix: compare the whole path of the return_to address,
 parameters included

---
 openid/consumer/consumer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/openid/consumer/consumer.py b/openid/consumer/consumer.py
index 962dbcb..aa4dcdd 100644
--- a/openid/consumer/consumer.py
+++ b/openid/consumer/consumer.py
@@ -195,7 +195,7 @@ import warnings
 
 import six
 from cryptography.hazmat.primitives import hashes
-from six.moves.urllib.parse import parse_qsl, urldefrag, urlparse
+from six.moves.urllib.parse import parse_qsl, urldefrag, urlparse, urlsplit
 
 from openid import cryptutil, fetchers, oidutil, urinorm
 from openid.association import Association, SessionNegotiator, default_negotiator
@@ -699,8 +699,8 @@ class GenericConsumer(object):
 
         # The URL scheme, authority, and path MUST be the same between
         # the two URLs.
-        app_parts = urlparse(urinorm.urinorm(return_to))
-        msg_parts = urlparse(urinorm.urinorm(msg_return_to))
+        app_parts = urlsplit(urinorm.urinorm(return_to))
+        msg_parts = urlsplit(urinorm.urinorm(msg_return_to))
 
         # (addressing scheme, network location, path) must be equal in
         # both URLs.
-- 
2.43.0


From 9bf08049aa65d7e04835b8dd715e05f9f3996018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:02 +0000
Subject: [PATCH 46/54] fix: an XRDS document with content type parameters is
 an XRDS document

---
 openid/yadis/discover.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/openid/yadis/discover.py b/openid/yadis/discover.py
index 9b40c38..b32d084 100644
--- a/openid/yadis/discover.py
+++ b/openid/yadis/discover.py
@@ -52,7 +52,12 @@ class DiscoveryResult(object):
 
     def isXRDS(self):
         """Is the response text supposed to be an XRDS document?"""
-        return (self.usedYadisLocation() or self.content_type == YADIS_CONTENT_TYPE)
+        return self.usedYadisLocation() or isYadisContentType(self.content_type)
+
+
+def isYadisContentType(content_type):
+    """Is this value of the content type header the type of XRDS documents? Its parameters do not matter."""
+    return bool(content_type) and content_type.split(';', 1)[0].strip().lower() == YADIS_CONTENT_TYPE
 
 
 def discover(uri):
@@ -115,7 +120,7 @@ def whereIsYadis(resp):
 
     # According to the spec, the content-type header must be an exact
     # match, or else we have to look for an indirection.
-    if content_type and content_type.split(';', 1)[0].lower() == YADIS_CONTENT_TYPE:
+    if isYadisContentType(content_type):
         return resp.final_url
     else:
         # Try the header
-- 
2.43.0


From dbada30b78b737672420667e68a65382109562cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:05 +0000
Subject: [PATCH 47/54] fix: names of header fields are not case sensitive in
 Yadis discovery

---
 openid/yadis/discover.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/openid/yadis/discover.py b/openid/yadis/discover.py
index b32d084..e1740d3 100644
--- a/openid/yadis/discover.py
+++ b/openid/yadis/discover.py
@@ -55,6 +55,14 @@ class DiscoveryResult(object):
         return self.usedYadisLocation() or isYadisContentType(self.content_type)
 
 
+def getHeader(resp, name):
+    """Return value of the header field of the response. Names of header fields are not case sensitive."""
+    for key, value in resp.headers.items():
+        if key.lower() == name.lower():
+            return value
+    return None
+
+
 def isYadisContentType(content_type):
     """Is this value of the content type header the type of XRDS documents? Its parameters do not matter."""
     return bool(content_type) and content_type.split(';', 1)[0].strip().lower() == YADIS_CONTENT_TYPE
@@ -86,7 +94,7 @@ def discover(uri):
 
     # Attempt to find out where to go to discover the document
     # or if we already have it
-    result.content_type = resp.headers.get('content-type')
+    result.content_type = getHeader(resp, 'content-type')
 
     result.xrds_uri = whereIsYadis(resp)
 
@@ -98,7 +106,7 @@ def discover(uri):
                 'Got status %r' % (resp.status,), resp)
             exc.identity_url = result.normalized_uri
             raise exc
-        result.content_type = resp.headers.get('content-type')
+        result.content_type = getHeader(resp, 'content-type')
 
     result.response_text = resp.body
     return result
@@ -116,7 +124,7 @@ def whereIsYadis(resp):
     """
     # Attempt to find out where to go to discover the document
     # or if we already have it
-    content_type = resp.headers.get('content-type')
+    content_type = getHeader(resp, 'content-type')
 
     # According to the spec, the content-type header must be an exact
     # match, or else we have to look for an indirection.
@@ -124,7 +132,7 @@ def whereIsYadis(resp):
         return resp.final_url
     else:
         # Try the header
-        yadis_loc = resp.headers.get(YADIS_HEADER_NAME.lower())
+        yadis_loc = getHeader(resp, YADIS_HEADER_NAME)
 
         if not yadis_loc:
             # Parse as HTML if the header is missing.
-- 
2.43.0


From a7382b70a0194747141eeb2d26f7fc5a542b87c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:08 +0000
Subject: [PATCH 48/54] fix: an empty Yadis location is none

---
 openid/yadis/discover.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openid/yadis/discover.py b/openid/yadis/discover.py
index e1740d3..490f188 100644
--- a/openid/yadis/discover.py
+++ b/openid/yadis/discover.py
@@ -46,7 +46,7 @@ class DiscoveryResult(object):
 
     def usedYadisLocation(self):
         """Was the Yadis protocol's indirection used?"""
-        if self.xrds_uri is None:
+        if not self.xrds_uri:
             return False
         return self.normalized_uri != self.xrds_uri
 
-- 
2.43.0


From fb0b92e4881a3c8ebffb9083eb27601248a42131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:15 +0000
Subject: [PATCH 49/54] fix: a request with an empty body is a POST with every
 fetcher

---
 openid/fetchers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openid/fetchers.py b/openid/fetchers.py
index 8a10993..9a305c9 100644
--- a/openid/fetchers.py
+++ b/openid/fetchers.py
@@ -423,7 +423,7 @@ class HTTPLib2Fetcher(HTTPFetcher):
         """
         assert body is None or isinstance(body, six.binary_type)
 
-        if body:
+        if body is not None:
             method = 'POST'
         else:
             method = 'GET'
@@ -475,7 +475,7 @@ class RequestsFetcher(HTTPFetcher):
         """
         assert body is None or isinstance(body, six.binary_type)
 
-        if body:
+        if body is not None:
             method = 'POST'
         else:
             method = 'GET'
-- 
2.43.0


From 4383520226d5abc478ec00ae7b55d089d7c84635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:54 +0000
Subject: [PATCH 50/54] fix: HTTPLib2Fetcher reported an address of the
 server's choice as final, and failed for POST requests

---
 openid/fetchers.py | 61 +++++++++++++++++++++++-----------------------
 1 file changed, 31 insertions(+), 30 deletions(-)

diff --git a/openid/fetchers.py b/openid/fetchers.py
index 9a305c9..863002e 100644
--- a/openid/fetchers.py
+++ b/openid/fetchers.py
@@ -7,6 +7,7 @@ import time
 import six
 from six import BytesIO
 from six.moves.urllib.error import HTTPError as UrllibHTTPError
+from six.moves.urllib.parse import urljoin
 from six.moves.urllib.request import Request, urlopen
 
 import openid
@@ -395,6 +396,8 @@ class HTTPLib2Fetcher(HTTPFetcher):
 
     @see: http://bitworking.org/projects/httplib2/
     """
+    MAX_REDIRECTS = 5
+    REDIRECT_CODES = {'GET': (300, 301, 302, 303, 307, 308), 'POST': (303, 308)}
 
     def __init__(self, cache=None):
         """@param cache: An object suitable for use as an C{httplib2}
@@ -431,36 +434,34 @@ class HTTPLib2Fetcher(HTTPFetcher):
         if headers is None:
             headers = {}
 
-        # httplib2 doesn't check to make sure that the URL's scheme is
-        # 'http' so we do it here.
-        if not (url.startswith('http://') or url.startswith('https://')):
-            raise ValueError('URL is not a HTTP URL: %r' % (url,))
-
-        httplib2_response, content = self.httplib2.request(
-            url, method, body=body, headers=headers)
-
-        # Translate the httplib2 response to our HTTP response abstraction
-
-        # When a 400 is returned, there is no "content-location"
-        # header set. This seems like a bug to me. I can't think of a
-        # case where we really care about the final URL when it is an
-        # error response, but being careful about it can't hurt.
-        try:
-            final_url = httplib2_response['content-location']
-        except KeyError:
-            # We're assuming that no redirects occurred
-            assert not httplib2_response.previous
-
-            # And this should never happen for a successful response
-            assert httplib2_response.status != 200
-            final_url = url
-
-        return HTTPResponse(
-            body=content,
-            final_url=final_url,
-            headers=dict(httplib2_response.items()),
-            status=httplib2_response.status,
-        )
+        # httplib2 reports the final address in the "content-location" header
+        # only, where it can not be told apart from the header of the same
+        # name sent by the server.  So follow the redirects here.
+        self.httplib2.follow_redirects = False
+        for _ in range(self.MAX_REDIRECTS + 1):
+            # httplib2 doesn't check to make sure that the URL's scheme is
+            # 'http' so we do it here.
+            if not (url.startswith('http://') or url.startswith('https://')):
+                raise ValueError('URL is not a HTTP URL: %r' % (url,))
+
+            httplib2_response, content = self.httplib2.request(
+                url, method, body=body, headers=headers)
+
+            # Translate the httplib2 response to our HTTP response abstraction
+            status = httplib2_response.status
+            if status not in self.REDIRECT_CODES[method] or 'location' not in httplib2_response:
+                return HTTPResponse(
+                    body=content,
+                    final_url=url,
+                    headers=dict(httplib2_response.items()),
+                    status=status,
+                )
+
+            url = urljoin(url, httplib2_response['location'])
+            if status != 308:
+                method, body = 'GET', None
+
+        raise HTTPError('Too many redirects: %r' % (url,))
 
 
 class RequestsFetcher(HTTPFetcher):
-- 
2.43.0


From a947cc28948646995fe6e91a7c082b9c772c94db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:58 +0000
Subject: [PATCH 51/54] fix: CurlHTTPFetcher follows relative redirects

---
 openid/fetchers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/openid/fetchers.py b/openid/fetchers.py
index 863002e..3800ef6 100644
--- a/openid/fetchers.py
+++ b/openid/fetchers.py
@@ -365,10 +365,11 @@ class CurlHTTPFetcher(HTTPFetcher):
                 response_headers = self._parseHeaders(response_header_data)
                 code = c.getinfo(pycurl.RESPONSE_CODE)
                 if code in [301, 302, 303, 307]:
-                    url = response_headers.get('location')
-                    if url is None:
+                    location = response_headers.get('location')
+                    if location is None:
                         raise HTTPError(
                             'Redirect (%s) returned without a location' % code)
+                    url = urljoin(url, location)
 
                     # Redirects are always GETs
                     c.setopt(pycurl.POST, 0)
-- 
2.43.0


From 8019f65bf39dd387fbd7a1a40fb4c961d4cdbcb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:54 +0000
Subject: [PATCH 52/54] fix: refuse to sign a field whose name contains a comma

---
 openid/association.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/openid/association.py b/openid/association.py
index 9025ff8..02a1e55 100644
--- a/openid/association.py
+++ b/openid/association.py
@@ -503,6 +503,10 @@ class Association(object):
         message_keys = signed_message.toPostArgs().keys()
         signed_list = [k[7:] for k in message_keys
                        if k.startswith('openid.')]
+        for name in signed_list:
+            if ',' in name:
+                # The signed list could not name this field.
+                raise kvform.KVFormError("Field name {!r} can not be signed, it contains a comma".format(name))
         signed_list.append('signed')
         signed_list.sort()
         signed_message.setArg(OPENID_NS, 'signed', ','.join(signed_list))
-- 
2.43.0


From e923e687be1c41a2b8b09d917995fd2d8160042b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:19 +0000
Subject: [PATCH 53/54] fix: an empty handle does not fetch the best
 association of the file store

---
 openid/store/filestore.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/openid/store/filestore.py b/openid/store/filestore.py
index 47ada63..384bd54 100644
--- a/openid/store/filestore.py
+++ b/openid/store/filestore.py
@@ -231,14 +231,11 @@ class FileOpenIDStore(OpenIDStore):
         if handle is not None:
             handle = string_to_text(handle, "Binary values for handle are deprecated. Use text input instead.")
 
-        if handle is None:
-            handle = ''
-
         # The filename with the empty handle is a prefix of all other
         # associations for the given server URL.
-        filename = self.getAssociationFilename(server_url, handle)
+        filename = self.getAssociationFilename(server_url, handle or '')
 
-        if handle:
+        if handle is not None:
             return self._getAssociation(filename)
         else:
             association_files = os.listdir(self.association_dir)
-- 
2.43.0


From 93f58342430aa0f2bb20efb1efcaf8d8fd99ac67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:50 +0000
Subject: [PATCH 54/54] fix: do not use services of one XRDS document with the
 CanonicalID of another

The resolver is asked once for each service type and may follow
references, so the answers can belong to different authorities.
---
 openid/yadis/xrires.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/openid/yadis/xrires.py b/openid/yadis/xrires.py
index 0eb04d7..cbc17ae 100644
--- a/openid/yadis/xrires.py
+++ b/openid/yadis/xrires.py
@@ -81,6 +81,7 @@ class ProxyResolver(object):
         # XRDS for each.
 
         canonicalID = None
+        answered = False
 
         for service_type in service_types:
             url = self.queryURL(xri, service_type)
@@ -90,7 +91,12 @@ class ProxyResolver(object):
                 # print("response not OK:", response)
                 continue
             et = etxrd.parseXRDS(response.body)
-            canonicalID = etxrd.getCanonicalID(xri, et)
+            document_id = etxrd.getCanonicalID(xri, et)
+            if answered and document_id != canonicalID:
+                # The services of one document must not be used with the CanonicalID of another one.
+                raise etxrd.XRDSFraud("%r and %r are both returned for %r" % (canonicalID, document_id, xri))
+            canonicalID = document_id
+            answered = True
             some_services = list(iterServices(et))
             services.extend(some_services)
         # TODO:
-- 
2.43.0

