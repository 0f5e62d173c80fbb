#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run to regenerate it)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech):
    assert len(title) <= 80, (id, len(title))
    m = {"adversary": "inputs", "faults": "fault_sequences", "crash points": "crash_points"}
    over = list(dict.fromkeys(m.get(o, o) for o in over))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": files[0]} for n in mech]}})

p("P01", "Key-value form round-trips and cannot be injected into",
  "Encoding any sequence of text key/value pairs in key-value form either fails with the key-value-form error, exactly when a key contains a newline or a colon or a value contains a newline, or yields text that decodes back to the same pairs in the same order (up to surrounding whitespace of each key and value); a mapping decoded from text has the last value of each key. "
  "Decoding never fails on any text in lenient mode, and in strict mode encoding and decoding raise the key-value-form error instead of silently repairing anything.",
  ["inputs"], "all texts/pairs up to the stated length, every character value",
  "The signature base string is built from this encoding: one unescaped character at one position is enough to forge, and tests only try a few dozen literal strings.",
  ["openid/kvform.py", "openid/oidutil.py"], ["seqToKV", "kvToSeq", "dictToKV", "kvToDict"])

p("P02", "Integer, base64 and XOR wire encodings are exact inverses",
  "For every non-negative integer the big-endian two's-complement byte encoding is minimal, never has its top bit set and decodes to the same integer, also through base64; base64 encoding of any byte string decodes to the same byte string, and malformed base64 is reported as a value error rather than anything else. "
  "XOR of two equally long byte strings undoes itself and strings of different length are refused.",
  ["inputs"], "all integers below the stated width, all byte strings up to the stated length",
  "Errors occur only for particular top bits, zero bytes or lengths; tests sample a handful of numbers.",
  ["openid/cryptutil.py", "openid/dh.py", "openid/oidutil.py"], ["int_to_bytes", "bytes_to_int", "fix_btwoc", "longToBase64", "base64ToLong", "strxor", "toBase64", "fromBase64"])

p("P03", "Stored associations survive serialisation unchanged and expire on time",
  "An association written to its stored text form and read back is equal to the original in handle, secret, issue time, lifetime and type, whatever the handle, secret and times are. "
  "Stored text with a missing, repeated, reordered or foreign field, or a different version, is rejected with an error, and the remaining lifetime reported at any moment is the issue time plus lifetime minus now, never below zero.",
  ["inputs", "histories"], "all handles, secrets, issue times and clock values within bounds; all field orders",
  "Round trip and expiry depend on arbitrary byte and integer values and on the relation of the clock to the issue time.",
  ["openid/association.py", "openid/kvform.py"], ["Association.serialize", "Association.deserialize", "Association.getExpiresIn"])

p("P04", "Signing covers every protocol field of a message",
  "Signing a message yields a copy whose signed list names every protocol field the message carries (including the signed list itself and extension fields, excluding the signature), whose handle is the signing association's, whose signature is the keyed hash of exactly those fields in listed order, and which the same association then verifies. "
  "A message that already carries a signature or signed list, a field name that the signed list or the signature base string cannot represent (comma, colon, newline) or a value with a newline is refused, and the original message is left untouched.",
  ["inputs"], "all messages up to the stated number of fields with symbolic names and values, both hash types",
  "A field that escapes the signature is exploitable only for particular combinations of names and namespaces.",
  ["openid/association.py", "openid/message.py"], ["Association.signMessage", "Association.getMessageSignature", "Association._makePairs"])

p("P05", "Signature verification accepts exactly the genuine signature",
  "Verifying a message succeeds if and only if its signature equals the base64 keyed hash, under the association's own secret and hash type, of exactly the fields its signed list names with the values the message carries; changing any character of a signed value, of the signed list, of the signature or of the secret makes it fail. "
  "A message lacking a signature or signed list raises a value error and is never accepted.",
  ["inputs", "adversary"], "all attacker-chosen field values, signed lists, signatures and secrets within bounds; ideal (collision-free) keyed hash",
  "Forgery needs one specific altered character or truncated comparison that sample tests never hit.",
  ["openid/association.py"], ["Association.checkMessageSignature", "Association.sign", "Association._makePairs"])

p("P06", "Messages round-trip and no field changes namespace or value",
  "Parsing any set of query arguments into a message and listing the message's arguments again returns the same arguments and values, and parsing that listing again gives an equal message. "
  "A value stored under a namespace and key is returned for exactly that namespace and key, never for another namespace, and duplicated or non-text argument values are refused.",
  ["inputs"], "all argument dictionaries up to the stated number of arguments with symbolic names and values",
  "Aliasing between namespaces depends on the exact spelling of several argument names at once.",
  ["openid/message.py"], ["Message.fromPostArgs", "Message.toPostArgs", "Message.getArg", "Message.setArg", "Message.getKey"])

p("P07", "Namespace aliases stay a bijection",
  "Whatever sequence of alias definitions a message receives, every namespace has at most one alias and every alias names exactly one namespace; a conflicting definition is refused with an error and changes nothing, an alias never contains a period or equals a reserved protocol field name, and a generated alias never collides with one in use.",
  ["inputs", "histories"], "all sequences of alias operations up to the stated length with symbolic aliases and namespaces",
  "Conflicts need particular histories of aliases and namespaces.",
  ["openid/message.py"], ["NamespaceMap.addAlias", "NamespaceMap.add", "NamespaceMap.getAlias", "NamespaceMap.getNamespaceURI"])

p("P08", "URLs built from messages decode back to the same arguments",
  "Appending arguments to a URL, or encoding a message as a URL, keeps the original scheme, host, path and existing query arguments and adds exactly the given arguments, so that decoding the resulting query yields the original arguments followed by the new ones with identical names and values; a fragment in the base URL stays a fragment. "
  "The auto-submit form of a message contains each argument exactly once with its exact value and posts to the given address.",
  ["inputs"], "all argument names and values up to the stated length over all Unicode, base URLs with and without query and fragment",
  "Escaping bugs concern single characters in particular positions.",
  ["openid/oidutil.py", "openid/message.py"], ["appendArgs", "Message.toURL", "Message.toFormMarkup", "Message.toURLEncoded"])

p("P09", "Realm matching never accepts a URL outside the realm",
  "A URL is accepted for a realm exactly when the schemes are equal, the ports (with scheme defaults) are equal, the host is the realm host or, for a wildcard realm, the realm's base domain or a name ending in a dot followed by it (a bare wildcard stands for every host), and the path equals the realm path or extends it at a path or query boundary. "
  "Malformed URLs or realms (other schemes, fragments in the realm, a star in the host of the URL, bad ports, missing host) are never accepted and never cause an exception.",
  ["inputs", "adversary"], "all URLs and realms of the stated templates with symbolic host, path, query, port characters",
  "A prefix or suffix confusion requires one attacker-chosen character next to a boundary.",
  ["openid/server/trustroot.py"], ["TrustRoot.parse", "TrustRoot.validateURL", "TrustRoot.checkURL", "_parseURL"])

p("P10", "Return-to verification accepts only listed, non-wildcard addresses",
  "A return address matches a list of allowed return addresses exactly when some entry is a valid, non-wildcard realm that contains the address; wildcard entries and unparsable entries never match. "
  "Verifying a return address against a realm succeeds only if relying-party discovery on that realm was not redirected and one of the discovered addresses matches; failed discovery means not verified.",
  ["inputs", "adversary", "faults"], "all lists of up to the stated number of entries and return addresses with symbolic characters, all discovery outcomes",
  "Depends on combinations of list entries and discovery outcomes.",
  ["openid/server/trustroot.py"], ["returnToMatches", "verifyReturnTo", "getAllowedReturnURLs", "TrustRoot.buildDiscoveryURL"])

p("P11", "URL normalisation is idempotent and keeps resources distinct",
  "Normalising an http(s) URL gives an absolute URL with lower-case scheme and host, without default port, empty port or dot segments and with a non-empty path, and normalising it again changes nothing. "
  "Dot segments are removed exactly as RFC 3986 prescribes, two URLs that differ in one unreserved character of host, path, query or fragment (other than letter case of the host, or inside a removed segment) or in one escaped byte of path, query or fragment never normalise to the same URL, no part of the host becomes part of the path, and illegal input is rejected only with a value error.",
  ["inputs"], "all URLs of the stated templates with symbolic characters up to the stated lengths",
  "Identifier confusion arises only for specific escape sequences and separators.",
  ["openid/urinorm.py"], ["urinorm", "remove_dot_segments"])

p("P12", "Nonces carry their timestamp and the skew window is exact",
  "A generated nonce parses back to the time it was generated for plus a non-empty random part, and any string that does not start with a complete UTC timestamp of an existing time since 1970 is rejected with a value error. "
  "A nonce is inside the acceptance window exactly when its timestamp differs from the current time by at most the allowed skew, and malformed nonces are never inside the window.",
  ["inputs", "histories"], "all nonce strings of bounded length, all timestamps, clocks and skews",
  "Window boundaries and parse errors concern single values.",
  ["openid/store/nonce.py"], ["mkNonce", "split", "checkTimestamp"])

p("P13", "A nonce is accepted at most once and never outside its window",
  "For the memory, file and SQL stores, over every history of nonce uses and clean-ups at arbitrary times, a (server, timestamp, salt) triple is accepted at most once (for the file store and SQLite also when several processes use it at the same time), is never accepted when its timestamp is further from the clock than the allowed skew, and a first use inside the window is accepted. "
  "Triples that differ in server, timestamp or salt never block each other, and clean-up never makes an already used nonce acceptable again.",
  ["histories", "inputs"], "all histories up to the stated number of operations with symbolic servers, timestamps, salts and clocks",
  "Replay protection is a property of histories and clocks, not of single calls.",
  ["openid/store/memstore.py", "openid/store/filestore.py", "openid/store/sqlstore.py"], ["useNonce", "cleanupNonces"])

p("P14", "Stores return exactly the live association that was stored",
  "For the memory, file and SQL stores, over every history of storing, fetching, removing and cleaning up, fetching with a server and handle returns the last association stored for exactly that pair unless it was removed or has expired, and fetching without a handle returns the most recently issued unexpired one stored for that server. "
  "An association is never returned for another server or handle, expired associations are never returned, removal reports whether something was there, and clean-up removes expired associations only.",
  ["histories", "inputs"], "all histories up to the stated number of operations with symbolic servers, handles, issue times, lifetimes and clocks",
  "Needs multi-step histories with particular orders of issue and expiry times.",
  ["openid/store/memstore.py", "openid/store/filestore.py", "openid/store/sqlstore.py"], ["storeAssociation", "getAssociation", "removeAssociation", "cleanupAssociations"])

p("P15", "The file store is crash-atomic, race-safe and stays in its directory",
  "If the process stops, a step fails, or the machine loses data not yet synced, at any file-system step while storing an association, a later reader finds either the complete old association or the complete new one (or none if none existed), never a partial one and never an error. "
  "A file damaged otherwise is never a reason to fail. When two processes use the same nonce concurrently exactly one is told it was fresh, concurrent operations on associations never fail, and every file the store creates, reads or removes lies directly inside its own sub-directories with distinct (server, handle) pairs and distinct nonces using distinct files.",
  ["crash points", "schedules", "inputs", "adversary"], "every crash point, every interleaving of two nonce uses, all server URLs/handles/salts up to the stated length",
  "Crash points, interleavings and hostile names are not exercised by the tests.",
  ["openid/store/filestore.py"], ["FileOpenIDStore.storeAssociation", "FileOpenIDStore.useNonce", "FileOpenIDStore.getAssociationFilename", "_filenameEscape"])

p("P16", "Relying party reports success only for authenticated assertions",
  "The relying party reports a successful login only if the assertion's signature verifies under an unexpired association it stored for the very provider endpoint being used, or, when it holds no such association, that endpoint itself confirmed the exact received message as valid on direct verification. "
  "A success also requires that every mandatory field is present and listed as signed; otherwise the outcome is a failure, and an expired association never authenticates.",
  ["adversary", "inputs", "histories", "faults"], "all field presence/signed-list combinations and attacker-chosen values within bounds, all association ages and direct-verification outcomes",
  "Authentication bypasses need particular combinations of missing fields, handles and provider answers.",
  ["openid/consumer/consumer.py"], ["GenericConsumer._doIdRes", "_idResCheckSignature", "_idResCheckForFields", "_checkAuth", "_processCheckAuthResponse"])

p("P17", "Relying party accepts only identifiers the provider may assert",
  "A successful login names a claimed identifier whose discovered information (fetched by the relying party from that identifier, or established when the login began) has the same provider endpoint, the same local identifier and a compatible protocol version as the assertion; fragments of the claimed identifier are ignored for discovery but kept in the result. "
  "An assertion with a claimed identifier but no local identifier (or the reverse), or whose discovered information differs in any of these, is reported as a failure.",
  ["adversary", "inputs"], "all equality patterns between asserted values, session values and freshly discovered services, for OpenID 1 and 2",
  "Depends on combinations of asserted, remembered and discovered values.",
  ["openid/consumer/consumer.py", "openid/consumer/discover.py"], ["_verifyDiscoveryResults", "_verifyDiscoverySingle", "_discoverAndVerify"])

p("P18", "Relying party rejects replayed or misdirected assertions",
  "A login succeeds only if the URL the response arrived at equals the asserted return address in scheme, host and path and carries every query argument of that return address with the same value, and if the response nonce is well-formed, inside the skew window and never used before with that provider. "
  "Delivering the same positive assertion twice succeeds at most once; a response without nonce never succeeds.",
  ["adversary", "histories", "inputs"], "all return/current URLs of the templates with symbolic parts, all query combinations, all nonce values, double delivery",
  "Replay and redirection attacks need crafted URLs and repeated deliveries.",
  ["openid/consumer/consumer.py", "openid/store/nonce.py"], ["_checkReturnTo", "_verifyReturnToArgs", "_idResCheckNonce", "_idResGetNonceOpenID1"])

p("P19", "Signed-data accessors never reveal unsigned fields",
  "From a successful response, the signed-field accessors and every extension response parsed with signature checking return a field's value only if the signed list names that field, and return the whole of a namespace only if every one of its fields is signed; unsigned fields are reported as absent. "
  "Fields that are signed are returned with exactly the values the message carries.",
  ["adversary", "inputs"], "all messages up to the stated number of extension fields and all signed lists, including attacker-chosen aliases",
  "Leaks need a mixture of signed and unsigned fields with particular aliases.",
  ["openid/consumer/consumer.py", "openid/extensions/sreg.py", "openid/extensions/pape.py", "openid/extensions/ax.py"], ["SuccessResponse.getSigned", "SuccessResponse.getSignedNS", "SuccessResponse.extensionResponse", "SRegResponse.fromSuccessResponse", "pape.Response.fromSuccessResponse", "ax.FetchResponse.fromSuccessResponse"])

p("P20", "Relying party keeps an association only when type and secret agree",
  "The relying party creates an association from a provider's answer only if association type and session type are mutually compatible, the session type is the one requested (OpenID 1 plain fallback excepted) and all required fields parse; the stored secret is then the one the provider sent, un-masked for encrypted sessions, with the provider's handle and lifetime. "
  "When the provider proposes another type pair it is retried at most once and only if that pair is allowed by the relying party's negotiation preferences; every other answer or fetch failure yields no association and no exception.",
  ["adversary", "faults", "inputs"], "all provider answers with symbolic fields, all error codes and proposed types, all fetch outcomes",
  "Negotiation downgrade needs unusual combinations of answer fields.",
  ["openid/consumer/consumer.py", "openid/association.py"], ["_getAssociation", "_negotiateAssociation", "_extractAssociation", "_requestAssociation", "SessionNegotiator.isAllowed"])

p("P21", "Provider turns every request into a valid request or protocol error",
  "For every dictionary of query arguments, decoding an incoming provider request either reports that it is not an OpenID request, raises the protocol error, or returns a request object whose fields are exactly those of the query; no other exception escapes. "
  "A login request is only returned if its return address lies within its realm (or it has no return address), its mode is one of the defined ones, and its identifier and claimed identifier are both present or both absent.",
  ["adversary", "inputs"], "all presence combinations of request fields with symbolic values within bounds",
  "Totality over arbitrary queries and realm enforcement cannot be sampled.",
  ["openid/server/server.py", "openid/server/trustroot.py", "openid/message.py"], ["Decoder.decode", "CheckIDRequest.fromMessage", "CheckAuthRequest.fromMessage", "AssociateRequest.fromMessage"])

p("P22", "Provider confirms each of its own stateless signatures at most once",
  "Direct verification answers valid only for a message whose signature the provider itself made with an unexpired private (stateless) association, whose handle it names, and at most once per handle; altered messages, unknown, expired or shared (negotiated) handles, and second requests are answered not valid. "
  "A login response is signed with the relying party's shared association only if it exists and is unexpired, otherwise with a fresh private association, whose handle and secret are drawn anew, and with an invalidate-handle notice naming the rejected handle, which verification confirms only if that handle is really unknown.",
  ["adversary", "histories", "inputs"], "all histories up to the stated number of sign/verify/associate operations with symbolic handles, ages and message alterations",
  "Cross-use of shared and private handles and double verification are history properties.",
  ["openid/server/server.py"], ["Signatory.verify", "Signatory.sign", "Signatory.getAssociation", "Signatory.createAssociation", "CheckAuthRequest.answer"])

p("P23", "Provider asserts only the identity that was asked and approved",
  "Answering a login request positively produces an assertion exactly when the application allowed it: it carries the request's return address, the provider endpoint, a fresh nonce and the requested identifier pair (or, for identifier-select requests, the pair the application supplied); supplying another identity is refused with an error (a claimed identifier supplied for a request that is not an identifier selection is ignored). "
  "A refusal produces a cancel response for interactive requests and a setup-needed response for immediate ones (in OpenID 1: an id_res response with a setup address), and neither carries an identity or signature.",
  ["inputs"], "all request kinds (version, immediate, identity kinds) and all answer arguments, with symbolic values",
  "The decision table over version, mode, identity kind and answer arguments is large.",
  ["openid/server/server.py"], ["CheckIDRequest.answer", "OpenIDResponse", "CheckIDRequest.cancelURL", "CheckIDRequest.encodeToURL"])

p("P24", "Association exchange gives both sides the same secret",
  "For every allowed association and session type, when the provider answers an association request and the relying party processes that answer, both store the same handle, secret and type, agree on when it expires (the answer states the lifetime remaining at that moment), and the secret has the length the type requires; the secret is only sent in clear when the plain session was requested. "
  "Requests with a missing or unsupported session or association type, or missing or malformed key-exchange values, are answered with a protocol error, naming supported types where they are unsupported (in OpenID 2 an unsupported-type error response).",
  ["inputs"], "all secrets and key-exchange results (symbolic), all type pairs, all presence patterns of request fields",
  "Mask/unmask errors show for particular leading bytes only.",
  ["openid/server/server.py", "openid/consumer/consumer.py", "openid/dh.py"], ["AssociateRequest.answer", "DiffieHellmanSHA1ServerSession", "DiffieHellmanSHA1ConsumerSession", "DiffieHellman.xor_secret"])

p("P25", "Provider responses are delivered in the right encoding",
  "Answers to browser requests are sent to the request's return address as a redirect carrying exactly the response's fields, or as an auto-submitted form when an OpenID 2 response is too long for a URL; answers to direct requests are sent as key-value text, with an error status exactly for errors. "
  "Positive login assertions are signed before delivery, already signed ones are refused, and a protocol error is redirected only to the return address the request itself carried.",
  ["inputs"], "all response kinds with symbolic field values and lengths around the limit",
  "The encoding depends on length boundaries and message origin.",
  ["openid/server/server.py", "openid/message.py"], ["Encoder.encode", "SigningEncoder.encode", "OpenIDResponse.whichEncoding", "ProtocolError.whichEncoding"])

p("P26", "Discovered services are tried in priority order, each at most once",
  "Services and URIs of a discovery document are ordered by ascending numeric priority with entries lacking a priority last, and ordering never loses or duplicates an entry. "
  "During a login session each discovered service is handed out exactly once, in that order, for the identifier it was discovered for; discovery is repeated only when none are left or another identifier is used, and cleaning up empties the session entry.",
  ["inputs", "histories"], "all priority assignments for up to the stated number of services, all call sequences up to the stated length",
  "Depends on the joint order of several priorities and call histories.",
  ["openid/yadis/etxrd.py", "openid/yadis/manager.py", "openid/consumer/discover.py"], ["prioSort", "expandService", "Discovery.getNextService", "Discovery.cleanup", "YadisServiceManager"])

p("P27", "Content negotiation follows the Accept header",
  "Parsing a generated Accept header returns the same media types and qualities (in tenths), ordered by descending quality; parsing never raises: entries without a slash are skipped, qualities (the parameter spelled q) that are no number count as 1. "
  "The acceptable types returned for a header are exactly those whose best matching entry has a positive quality, ordered by that quality and then by their order of preference, with exact type overriding wildcards.",
  ["inputs"], "all headers of up to the stated number of entries with symbolic types and qualities",
  "Precedence between wildcard and exact entries depends on combinations.",
  ["openid/yadis/accept.py"], ["parseAcceptHeader", "generateAcceptHeader", "matchTypes", "getAcceptable"])

p("P28", "An XRI's canonical identifier is only trusted from its parent authority",
  "A canonical identifier found in an XRI resolution document is returned exactly if it, and each one above it in the chain, is (compared without regard to case) a child of the next document's canonical identifier up to the root authority of the queried name; otherwise the document is rejected with the discovery error. "
  "If the resolver answers the service types asked for with different documents, no endpoint is given the canonical identifier of a document it is not from. Identifiers are classified as XRI exactly by their leading characters, and the URI form of an XRI escapes characters so that distinct XRIs stay distinct.",
  ["adversary", "inputs"], "all chains of up to the stated depth with symbolic canonical identifiers, all XRIs up to the stated length",
  "Authority spoofing needs crafted sibling identifiers.",
  ["openid/yadis/etxrd.py", "openid/yadis/xri.py"], ["getCanonicalID", "providerIsAuthoritative", "rootAuthority", "identifierScheme", "toIRINormal", "iriToURI"])

p("P29", "Simple registration releases only requested fields and round-trips",
  "A simple-registration response built from a request contains only fields that the request asked for and that have data, with unchanged values, and re-reading the response (or request) from the message it was added to gives the same fields, required/optional split and policy URL; of two versions of the extension declared in one message the newer one is read, and requests and responses made in one process share no data. "
  "Unknown field names, and requesting one field as both required and optional in strict mode, are refused.",
  ["inputs"], "all subsets of required/optional fields and data with symbolic values, all request strings up to the stated length",
  "Subsets of fields cannot be enumerated by sample tests.",
  ["openid/extensions/sreg.py"], ["SRegRequest", "SRegResponse.extractResponse", "SRegResponse.fromSuccessResponse", "SRegRequest.parseExtensionArgs"])

p("P30", "Attribute exchange messages round-trip with their counts",
  "A fetch or store message written to protocol arguments and parsed again has the same types, aliases, counts, required flags, values and update URL; values are returned in order and with the announced count. "
  "Malformed messages (missing type or value, bad count, aliases with a period or comma, more values than requested, an update URL outside the realm) are refused with the documented value or key errors, and no other exception escapes.",
  ["inputs", "adversary"], "all messages up to the stated number of attributes and values with symbolic aliases, types, counts and values",
  "Counts, aliases and required flags interact.",
  ["openid/extensions/ax.py"], ["FetchRequest", "FetchResponse", "StoreRequest", "AXKeyValueMessage", "toTypeURIs"])

p("P31", "Authentication-policy data round-trips and malformed data is ignored or refused",
  "Policies, authentication time, assurance levels and maximum age written to protocol arguments parse back equal. "
  "An authentication time that is not of the form YYYY-MM-DDThh:mm:ssZ, an age that is not a whole number, or an assurance level of an undeclared type never yields a value: it is refused with a value error in strict mode and dropped in lenient mode.",
  ["inputs"], "all policy lists, times and levels within bounds with symbolic characters",
  "Format validation concerns single characters.",
  ["openid/extensions/pape.py", "openid/extensions/draft/pape2.py"], ["Request", "Response"])

p("P32", "Login requests state exactly what the application asked for",
  "A login request message carries the discovered identifier pair (or identifier-select), the given realm and return address, the right protocol version fields and mode, the association handle if one exists, and the login's nonce in the return address for OpenID 1; extension arguments are included unchanged. "
  "The redirect URL goes to the discovered provider endpoint and decodes to exactly that message.",
  ["inputs"], "all endpoint kinds (version, identifier-select, delegate), realms, return addresses and extension arguments with symbolic values",
  "Combination of protocol version, endpoint type and optional parts.",
  ["openid/consumer/consumer.py"], ["AuthRequest.getMessage", "AuthRequest.redirectURL", "AuthRequest.addExtensionArg", "Consumer.begin"])

p("P33", "Non-positive responses are never reported as success",
  "A response whose mode is cancel, error, setup-needed, absent or unknown is reported as cancelled, failed or setup-needed accordingly and never as success, and a setup-needed indication never turns into success. "
  "Processing any response always returns a result object and ends the pending login session on success or cancel.",
  ["adversary", "inputs"], "all modes up to the stated length, all presence combinations of response fields with symbolic values",
  "Attackers choose the mode string and the fields.",
  ["openid/consumer/consumer.py"], ["GenericConsumer.complete", "Consumer.complete", "_complete_id_res", "_completeInvalid"])

p("P34", "Discovery turns documents into endpoints without inventing data",
  "An OpenID endpoint taken from an HTML page (first link in the head with the relation and a non-empty address) or service document names the provider URL, versions and non-empty local identifier the document states, and the normalised final address of the page as claimed identifier (none for provider-identifier services); OpenID 2 entries are preferred over OpenID 1 and provider-identifier entries over all, otherwise document priority is kept; a service with conflicting non-empty local identifiers is rejected with the discovery error. "
  "User input is normalised to an http(s) URL without fragment or an XRI (by its leading characters), other schemes and documents that are not available are refused with the discovery error and no other exception.",
  ["inputs", "adversary"], "all service type combinations and local identifiers with symbolic values, user inputs up to the stated length",
  "Combinations of types and identifiers; user input is arbitrary.",
  ["openid/consumer/discover.py"], ["OpenIDServiceEndpoint", "findOPLocalIdentifier", "getOPOrUserServices", "discover", "normalizeURL"])

p("P35", "Yadis discovery uses exactly the document the page names",
  "Discovery of an address fetches that address (accepting service documents) and, if the page is not itself served as a service document (media type compared without parameters and case), the location named by its X-XRDS-Location header field (any spelling of the field name), or else by the first matching meta element in the head of the page; nothing else is fetched, and a page that names no document is returned itself. "
  "The result reports the final address, the location, type and content of that document and whether an indirection was used; answers other than 200 or 206 are discovery failures carrying the response, and no page content, encoding or header makes discovery fail otherwise.",
  ["inputs", "adversary"], "all content types, locations and pages of the stated shapes with symbolic characters, all status codes",
  "The place of the document depends on combinations of header, type and page.",
  ["openid/yadis/discover.py", "openid/yadis/parsehtml.py"], ["discover", "whereIsYadis", "findHTMLMeta", "DiscoveryResult"])

p("P36", "Service filters see every service once, in order, and give what they accept",
  "Applying a filter to a service document gives, for each service in priority order, the results of the filter objects in the order given followed, for each address of the service (or once without address), by the result of the first listed function or endpoint class that accepts it; nested lists are filters of their own, without filter every service is found as it is, and parts that are no filters are refused with a type error. "
  "The types that match are those asked for which the service states. Getting services of an address raises only the discovery error, exactly if the document is not available or no service document.",
  ["inputs"], "all filters of the stated size and nesting over all documents of the stated size, symbolic types and status codes",
  "Filters nest and combine; documents vary in types and addresses.",
  ["openid/yadis/filters.py", "openid/yadis/services.py"], ["mkFilter", "mkCompoundFilter", "TransformFilterMaker", "CompoundFilter", "BasicServiceEndpoint.matchTypes", "applyFilter", "getServiceEndpoints"])

p("P37", "Fetchers ask for http and https addresses only and report what the server said",
  "The urllib, curl and httplib2 fetchers request an address only if it begins with http:// or https://, also after each redirect they follow themselves; anything else is an error before a request is made. Exactly one request is made per address, a POST with the body exactly if a body is given, with the headers given; every status is a response, whose status, body (bounded) and header fields are those of the answer and whose final address is the one the answer came from, never one the server claims. "
  "Endless redirects, malformed or cut headers are errors; connections are closed. With the default fetcher every failure is a fetching error that holds its cause, unless wrapping is turned off.",
  ["inputs", "adversary", "faults"], "all addresses and redirect targets of the stated templates with symbolic characters, all status codes, all redirect chains up to the stated length",
  "Redirect chains and addresses are chosen by the server asked.",
  ["openid/fetchers.py"], ["Urllib2Fetcher", "CurlHTTPFetcher", "HTTPLib2Fetcher", "RequestsFetcher", "ExceptionWrappingFetcher", "setDefaultFetcher", "_allowedURL"])

p("P38", "Over-broad realms are reported as such",
  "Asked whether a realm is sane, the answer is yes exactly if the realm's host is localhost itself, or is a name of at least two non-empty labels, the last being a known top-level domain, where a realm with a wildcard under a two-letter top-level domain whose second label has at most three letters (*.co.uk) needs one more label. "
  "Scheme, port, path, query, a final dot and letter case make no difference; realms that do not parse, all of the web (*), numeric addresses and names under reserved domains are never sane. Both ways of asking agree, asking again gives the same answer, and asking never raises.",
  ["inputs"], "all realms of up to the stated number of labels with symbolic letters, every known top-level domain",
  "A provider warns its users by this answer; the rules interact (wildcards, final dots, label lengths, short domains).",
  ["openid/server/trustroot.py"], ["TrustRoot.isSane", "TrustRoot.checkSanity", "TrustRoot.parse", "_top_level_domains"])

with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
print(len(P))
