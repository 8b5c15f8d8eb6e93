"""Writes properties.jsonl (kept as a program so that the text is reviewable)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": ["src/oidcop/" + f for f in files],
            "state": [{"name": n, "meaning": m, "where": "src/oidcop/" + w} for n, m, w in state],
            "mechanism": [{"name": n, "where": "src/oidcop/" + w} for n, w in mech],
            "observe_at": observe,
            "hook_needed": None,
        },
    })


TOK = ["oauth2/token.py", "oidc/token.py", "session/grant.py", "session/token.py"]

p("C01", "An authorization code buys tokens at most once",
  "Over any history of token requests, including ones whose parsing and processing interleave with other requests, an authorization code leads to at most one successful token response; every other presentation of it gets an error or an exception and no token. "
  "The first presentation by the client it was issued to, with the right redirect_uri and within the code's lifetime, succeeds, and failed attempts (wrong client, wrong redirect_uri, wrong secret) before it do not consume the code. "
  "At an OpenID Connect token endpoint a later presentation of a redeemed code by its client within the code's lifetime also makes every access and refresh token minted from that code, directly or through refreshes, unusable.",
  ["histories", "schedules", "configurations"],
  "every sequence of redemptions, refreshes, replays and clock advances over several sessions and clients; every order of the parse and process steps of concurrent redemptions of one code; default and JWT code handlers; plain OAuth2 and OIDC servers",
  "The tests redeem a code twice in a row in one order; they never interleave the two halves of requests and never look at what the tokens minted along a refresh chain do after a replay.",
  TOK, [("code.used / register_usage / max_usage", "oidc/token.py AccessTokenHelper"), ("revocation of descendants", "session/grant.py Grant.revoke_token")],
  ["token endpoint responses", "userinfo and introspection answers"],
  [("used", "how often the code has been used", "session/token.py Item")])

p("C02", "Codes and refresh tokens are bound to client and redirect_uri",
  "A code or refresh token presented by any client (however correctly authenticated) other than the one the user authorized never yields a token of any kind. "
  "A code whose authorization request carried a redirect_uri yields tokens only if the token request carries exactly the same redirect_uri string. "
  "The tokens in a successful response always belong to the session (user, client, grant) in which the code or refresh token was issued.",
  ["histories", "inputs"],
  "every pairing of issued codes and refresh tokens with presenting clients, client authentication methods and redirect_uri strings (other registered URIs, prefixes, case, percent-encoding, trailing characters)",
  "The tests have one wrong-client and one wrong-redirect_uri example each, with fixed strings and no other sessions around.",
  TOK, [("owner check", "oidc/token.py process_request"), ("redirect_uri comparison", "oidc/token.py process_request")],
  ["token endpoint responses", "introspection of the issued tokens", "session manager token lookup"])

p("C03", "PKCE: no tokens without the verifier that matches the challenge",
  "With the PKCE add-on, a code issued for a request that carried a code_challenge yields tokens only when the token request carries a code_verifier whose transformation (plain or the configured S-methods) equals that challenge, and with it does yield tokens; a failed attempt neither yields tokens nor prevents the right verifier from working. "
  "A request without code_challenge is refused at the authorization endpoint when PKCE is essential for that client (client setting first, then the server-wide one), and so is a request with a code_challenge_method the server is not configured for (option code_challenge_method as documented, or code_challenge_methods). "
  "An absent code_challenge_method means plain.",
  ["inputs", "configurations", "histories"],
  "all verifier/challenge strings and single-character mutations of them, every method in and outside the configured set, every combination of server-wide and per-client essential settings, interleaved sessions",
  "The tests use a handful of fixed verifiers and only the sequential path.",
  ["oidc/add_on/pkce.py", "oauth2/token.py", "oauth2/authorization.py"],
  [("post_authn_parse / post_token_parse / verify_code_challenge", "oidc/add_on/pkce.py")],
  ["authorization endpoint responses", "token endpoint responses"])

p("C04", "Authorization responses only go to a registered redirect URI",
  "The authorization endpoint never sends the browser anywhere (redirect, fragment or form post, success or error, carrying codes, tokens or error codes) except to a URI registered for the requesting client: scheme, host, path and the decoded query components of the target must be exactly those of one registered entry, before response parameters are added. "
  "A request with any other redirect_uri, with a fragment in it, or with none when the client has not exactly one registered, is refused without a redirect and creates no session. "
  "A request with a redirect_uri equal to a registered one is served.",
  ["inputs", "configurations"],
  "registered sets (several entries, with and without query, multi-valued queries, custom schemes) times requested URIs derived from them by mutation (prefix, suffix, case, encoding, userinfo, port, added/removed/blank/duplicated query parameters, fragments, control characters)",
  "The tests try about ten literal URIs; what a mutated URI does depends on parsing details no example list covers.",
  ["oauth2/authorization.py", "util.py"],
  [("verify_uri / get_uri", "oauth2/authorization.py"), ("split_uri", "util.py")],
  ["Location header / form action of authorization responses", "absence of a session"])

p("C05", "Confidential endpoints serve only a client that proves who it is",
  "A request to the token, introspection or pushed authorization endpoint is served as client X only if it carries X's own valid credential by a method configured for that endpoint: the exact secret of X by basic or post, or an unexpired assertion (accepted once if it carries a jti) issued by and about X, signed with X's secret or X's registered key, whose audience names this server or endpoint. "
  "A wrong, foreign, expired, replayed, unsigned or method-confused credential, an unknown client, or a client whose secret has expired is always refused. "
  "A correct credential by an enabled method is accepted.",
  ["inputs", "configurations", "histories"],
  "all combinations of endpoint, enabled method subsets, client kinds (secret, keys, both, public), and credentials mutated in secret, signature, key, algorithm, issuer, subject, audience, expiry and jti, with other clients' credentials mixed in",
  "The tests exercise each method class alone with one good and a few bad values.",
  ["client_authn.py", "endpoint.py", "oauth2/introspection.py", "oauth2/pushed_authorization.py"],
  [("verify_client", "client_authn.py"), ("JWSAuthnMethod.verify, jti store", "client_authn.py"), ("valid_client_info", "client_authn.py")],
  ["endpoint responses"],
  [("jti_db", "assertion identifiers already seen", "endpoint_context.py")])

p("C06", "Scopes never widen along a grant",
  "Every scope reported in a token response, carried in an access token, or reported by introspection is a subset of the scopes the authorization request of that session asked for, and a refresh request that asks for a scope outside those held by the token its refresh token was minted from is refused without issuing anything. "
  "A refresh without scope or with a subset of that scope succeeds, and the access token it returns carries exactly the scope the response states. "
  "With deny_unknown_scopes set, an authorization request containing a scope the server or that client is not allowed is refused.",
  ["histories", "inputs", "configurations"],
  "all refresh chains with narrowing and re-widening scope requests over several grants, all subsets and supersets of scopes, server- and client-level allowed scopes",
  "The tests follow a few fixed two-step chains; they do not compare the scope seen at each place a token's scope can be observed.",
  TOK + ["scopes.py", "oauth2/introspection.py"],
  [("find_scope", "session/grant.py"), ("refresh scope check", "oidc/token.py RefreshTokenHelper.post_parse_request"), ("check_unknown_scopes_policy", "oauth2/authorization.py")],
  ["token responses", "JWT access tokens", "introspection"])

p("C07", "A token works exactly as long as it is active",
  "At every moment, an access token is accepted by userinfo and reported active by introspection, and a code or refresh token is accepted by the token endpoint, if and only if it was issued by this server, is used at the place for its class, has not expired by its usage rules or its grant's lifetime, has not been revoked (itself, through a revoked ancestor, its grant, or its client session being revoked or logged out, or its session removed) and has not used up its allowed uses. "
  "An expired, revoked or removed token is answered by introspection with active false and no other claim of the session.",
  ["histories", "configurations"],
  "all interleavings of issuing, refreshing, using, revoking at each level, logging out, removing sessions and advancing the clock across every expiry boundary; default and JWT handlers for each token class",
  "Each test looks at one token after one event; whether every endpoint agrees with the state after an arbitrary history is out of their reach.",
  TOK + ["session/manager.py", "oauth2/introspection.py", "oidc/userinfo.py", "token/jwt_token.py", "token/__init__.py"],
  [("Item.is_active", "session/token.py"), ("is_expired", "token/__init__.py"), ("process_request", "oidc/userinfo.py, oauth2/introspection.py")],
  ["userinfo, introspection and token endpoint answers"])

p("C08", "Revocation reaches exactly the tokens it should",
  "Revoking a token with recursion makes that token and every token minted from it, at any depth, unusable, and no other token; without recursion only that token. "
  "Revoking a grant makes all its tokens unusable and nothing else; revoking a client session does so for all grants of that user at that client and no other user or client. "
  "Nothing revoked ever becomes usable again.",
  ["histories"],
  "all token trees built by code redemption, refresh and direct minting, over several users, clients and grants, and all sequences of revocations through the session manager and the grant",
  "The code marks recursive revocation as not covered; tests revoke at most one level in a single grant.",
  ["session/manager.py", "session/grant.py", "session/info.py", "session/token.py"],
  [("SessionManager.revoke_token/_revoke_dependent", "session/manager.py"), ("Grant.revoke_token", "session/grant.py"), ("revoke_client_session / revoke_grant", "session/manager.py")],
  ["userinfo, introspection and token endpoint answers", "is_active of session tokens"])

p("C09", "Usage rules decide what a token may mint, how often and for how long",
  "For every configured combination of server and client usage rules, the effective rule of a token class is the server's rule overridden member by member by the client's (an empty client rule clears it, a class only one side names is taken from that side). "
  "A token never mints a class its supports_minting does not name, is never used to mint at the token endpoint more than max_usage times, and expires expires_in seconds after it was issued, a negative expires_in meaning never. Nothing is minted from a token that is expired, revoked or not yet valid or by a grant that has ended. "
  "Minting that is allowed happens: a code whose rules allow an access token, refresh token (when requested) and ID Token returns them.",
  ["configurations", "histories"],
  "generated server and client usage rule sets, each checked with redemption, refresh and direct minting histories and clock advances to either side of every expiry",
  "The tests use one or two literal rule sets and no clock.",
  ["authz/__init__.py", "session/token.py", "session/grant.py", "oauth2/token.py", "oidc/token.py"],
  [("AuthzHandling.usage_rules", "authz/__init__.py"), ("supports_minting / max_usage_reached", "session/token.py"), ("Grant.mint_token", "session/grant.py")],
  ["token responses", "MintingNotAllowed", "is_active", "expires_in in responses"])

p("C10", "Forged, altered or misplaced tokens are never honoured",
  "A string that is not byte for byte a token issued by this server (altered in any character, truncated, extended, re-signed with another key or with alg none, minted by another server, or random) is refused by userinfo and the token endpoint and reported inactive by introspection. "
  "A genuine token is refused wherever a different class is required: only access tokens at userinfo, only codes for grant type authorization_code, only refresh tokens for grant type refresh_token; introspection never reports a code or ID Token active. "
  "The genuine token is still accepted afterwards where it belongs.",
  ["inputs", "configurations"],
  "single-character mutations at every position, truncations, extensions, header/payload substitutions, foreign-key and alg-none signatures, cross-server and cross-class use, for every handler type",
  "The tests try one or two malformed tokens.",
  ["token/__init__.py", "token/jwt_token.py", "token/id_token.py", "token/handler.py", "util.py", "oidc/userinfo.py", "oauth2/introspection.py"],
  [("TokenHandler.get_handler", "token/handler.py"), ("JWTToken.get_payload", "token/jwt_token.py"), ("Grant.get_token exact lookup", "session/grant.py")],
  ["userinfo, introspection and token endpoint answers"])

p("C11", "Claims are released only where and when the rules allow",
  "For each release point (userinfo, ID Token, introspection, access token) the user claims released are exactly those the user has that the configured base claims, always-claims, per-client additions, scope mapping (only where claims-by-scope is on) and the claims parameter of that session's request for that point call for, with claims-parameter value restrictions applied; for an access token that was given a narrower scope, userinfo and introspection release what that scope calls for. "
  "What one session gets never depends on earlier requests by this or another client, and every released value is that user's value.",
  ["configurations", "inputs", "histories"],
  "generated server, release point and client claim settings, scope sets, claims requests with value/values/essential, several users and clients, repeated and reordered sessions on one server",
  "The tests check fixed configurations one session at a time, so neither the combination space nor leakage from one request to the next is reached.",
  ["session/claims.py", "scopes.py", "session/grant.py", "oidc/userinfo.py", "token/id_token.py", "oauth2/introspection.py", "token/jwt_token.py"],
  [("ClaimsInterface.get_claims_from_request/_client_claims", "session/claims.py"), ("claims_match", "session/claims.py"), ("Scopes.scopes_to_claims", "scopes.py")],
  ["userinfo response", "ID Token", "introspection response", "JWT access token"])

p("C12", "Every ID Token is genuine, fresh and about this session",
  "Every ID Token issued verifies with the server's published keys (or the client's secret for HS algorithms) under the algorithm registered by the client or the server default, and has iss equal to the issuer, aud containing the client, sub equal to the session's subject, the request's nonce, iat the current time, exp later by the configured lifetime, and auth_time not later than iat. "
  "When issued by the authorization endpoint together with a code or access token it carries c_hash or at_hash, and wherever these appear they match the code or token issued with it. "
  "When the client registered ID Token encryption, the token can only be read with the client's key.",
  ["configurations", "inputs", "histories"],
  "all response types and grant types that return an ID Token, all supported signing and encryption algorithms per client and server default, lifetimes, claims settings, users whose data contains protocol claim names, several sessions",
  "The tests decode a few ID Tokens for one algorithm and check single members.",
  ["token/id_token.py", "oidc/authorization.py", "oidc/token.py", "session/grant.py"],
  [("IDToken.payload / sign_encrypt", "token/id_token.py"), ("get_sign_and_encrypt_algorithms", "token/id_token.py")],
  ["ID Tokens in authorization and token responses"])

p("C13", "Subject identifiers are stable, private and consistent",
  "In one session the same sub is given in the ID Token, userinfo, introspection, JWT access token and refreshed ID Tokens. "
  "Two different users never get the same sub at a client; with public subjects a user has the same sub at every client and every time; with pairwise subjects it is the same within a sector identifier and different between sectors; ephemeral subjects differ for each session. "
  "User data can never change the sub. Public and pairwise subs are determined by the server's configured salts: equal on servers with the same salts, different with other salts.",
  ["histories", "configurations", "inputs"],
  "all sets of users (including ids that concatenate ambiguously or look encoded), clients, subject types, sector identifiers and repeated logins through the endpoints and the session manager",
  "The tests compute one sub of each type for one user.",
  ["session/manager.py", "oauth2/authorization.py", "oidc/registration.py", "session/grant.py", "oidc/userinfo.py"],
  [("PublicID/PairWiseID/ephemeral_id", "session/manager.py"), ("create_grant", "session/manager.py")],
  ["sub in ID Token, userinfo, introspection, access token"])

p("C14", "The session store is a consistent tree and sessions are isolated",
  "After any sequence of session operations the store holds exactly the users, client sessions and grants that were created and not removed, each reachable from its parent and listed once, and get operations return what was last stored. "
  "Operations on one session never change or remove another user's, client's or grant's data, and a session id or token always resolves to the session it was issued for, whatever parts of it are asked for. "
  "Deleting a user, client session or grant removes it with everything below it; looking up something removed or never created is answered by an error (KeyError or ValueError), never by data.",
  ["histories", "inputs"],
  "all sequences of create, add, get, set, revoke, remove, delete and flush over a small set of users, clients and grants, with user and client identifiers including separators, blanks and unicode",
  "The tests walk a few fixed sequences of store operations and mostly on one branch.",
  ["session/database.py", "session/manager.py", "session/info.py"],
  [("Database.set/get/delete", "session/database.py"), ("session_key/encrypted_session_id", "session/database.py")],
  ["session manager API results"],
  [("db", "flat map from path key to node", "session/database.py")])

p("C15", "Logout ends the sessions it should and only tells who it must",
  "An end-session request is acted on only when it identifies a session of this browser or a genuine ID Token hint, and a post-logout redirect happens only to a URI registered as post-logout redirect for that client, echoing its state. "
  "After the user confirms, the client sessions of that logout (only this one, or all of that user's, as verified) are revoked, so that their tokens stop working, and sessions of other users stay usable. "
  "Every back-channel logout token sent is signed by this server and has iss, the receiving client as aud, a jti, the logout event, the sid or sub that client knows, and no nonce, and front-channel messages go only to the registered logout URIs.",
  ["histories", "inputs", "configurations"],
  "several users with sessions at several clients, each with back-channel, front-channel, both or no logout URIs, all kinds of hints, cookies (missing, foreign, tampered), redirect targets and both single and all-client logout",
  "The tests run one user at one or two clients through the good path.",
  ["oidc/session.py", "session/manager.py", "cookie_handler.py"],
  [("process_request / do_verified_logout / logout_all_clients", "oidc/session.py"), ("unpack_signed_jwt", "oidc/session.py")],
  ["end_session responses", "logout tokens", "token usability afterwards"])

p("C16", "State survives dump and load",
  "At any point of any history, dumping the server state, passing it through JSON, and loading it into a freshly built server of the same configuration gives a server that answers every later request as the original would: outstanding codes, access, refresh and pushed-request references, client registrations, used assertions and revocations behave the same, and dumping again gives the same state. "
  "Loading never changes the dumped object (the part of cryptojwt's key jar apart).",
  ["crash_points", "histories", "configurations"],
  "a dump and load at every point of generated histories of authorization, redemption, refresh, revocation, registration and clock advance, followed by the same continuation on both servers",
  "The tests dump and load after one or two fixed steps and look at a few attributes.",
  ["endpoint_context.py", "session/database.py", "session/manager.py", "session/grant.py", "session/token.py", "session/info.py", "authn_event.py", "token/handler.py"],
  [("ImpExp.dump/load, special_load_dump", "session/grant.py, session/database.py, endpoint_context.py")],
  ["responses of the loaded server compared with the original's"])

p("C17", "Cookies cannot be forged, altered or used for another purpose",
  "A value put in a server cookie comes back exactly, with its type and time, when the cookie is presented unchanged, also to the server restarted with the same key file (types are names without colons). "
  "A cookie that has been altered in any character, made with other keys, or is missing a part is treated as absent, never as an error and never as a session; only another spelling of the very same bytes may be read, and then as exactly the original content. "
  "This holds for every combination of signing and encryption keys. "
  "A genuine cookie of one name or type is never accepted as another: presented under another purpose's name it never raises a session.",
  ["inputs", "configurations"],
  "all payload strings (separators, unicode, empty, long) and types, single-character mutations at every position, swapped parts of two genuine cookies, foreign keys, in each of the three key configurations, at the handler and at the authorization and end-session endpoints",
  "The tests round-trip a few literal values and tamper with one.",
  ["cookie_handler.py", "endpoint_context.py", "oauth2/authorization.py", "oidc/session.py", "user_authn/user.py"],
  [("CookieHandler._sign_enc_payload/_ver_dec_content/parse_cookie", "cookie_handler.py")],
  ["parse_cookie results", "authorization endpoint behaviour with a cookie"])

p("C18", "Dynamic registration stores what it says and nothing half-done",
  "A successful registration returns a fresh unique client_id (with a secret, expiry and registration access token where promised) and echoes metadata that equals what is stored and later read back with the registration access token; the client can immediately use what was registered. "
  "Requests with invalid metadata (redirect URIs with fragments or not allowed for the application type, bad sector identifier, unsupported algorithms, inconsistent logout or request URIs) are refused and leave no client behind. "
  "Reading a registration works only with that client's own registration access token.",
  ["inputs", "histories"],
  "generated registration metadata, valid and invalid in each member and in combination, many registrations on one server, read requests with every pairing of client and token",
  "The tests register a few literal requests.",
  ["oidc/registration.py", "oidc/read_registration.py", "client_authn.py"],
  [("client_registration_setup / do_client_registration / verify_*", "oidc/registration.py"), ("RegistrationRead.process_request", "oidc/read_registration.py")],
  ["registration and read responses", "client database"])

p("C19", "Pushed authorization requests are used once, by their client, unchanged",
  "A request_uri returned by the pushed authorization endpoint resolves at the authorization endpoint to exactly the parameters that were pushed, whatever other parameters the front channel carries, and at most once. "
  "It is accepted only for the client that pushed it and is unknown to any other; references never pushed are refused. "
  "The endpoint accepts only authenticated clients and valid authorization requests, and each reference is unique.",
  ["histories", "inputs"],
  "several clients pushing interleaved requests and redeeming references in any order, twice, with another client_id, with conflicting front-channel parameters, altered or invented references",
  "The tests push and use one request.",
  ["oauth2/pushed_authorization.py", "oauth2/authorization.py"],
  [("PushedAuthorization.process_request", "oauth2/pushed_authorization.py"), ("_do_request_uri", "oauth2/authorization.py")],
  ["authorization responses", "stored authorization request"],
  [("par_db", "pushed requests by reference", "endpoint_context.py")])

p("C20", "DPoP-bound tokens name the key that was proven",
  "A token request with a DPoP proof is served only if the proof is a JWT of type dpop+jwt, signed with the key embedded in its header under an allowed asymmetric algorithm, for this method and this URL, and the access token issued then carries the thumbprint of exactly that key and token_type DPoP. "
  "A proof that is altered, signed by another key, unsigned, for another method or URL, or missing a member is refused and yields no token. "
  "A request without proof, and any token from the authorization endpoint, gives an unbound Bearer token.",
  ["inputs", "histories"],
  "valid proofs with RSA and EC keys, every single-fault mutation of header, payload and signature, several sessions with different keys, refreshes with and without proof",
  "The tests verify one proof.",
  ["oauth2/add_on/dpop.py", "oidc/token.py", "oauth2/token.py", "session/grant.py"],
  [("token_post_parse_request", "oauth2/add_on/dpop.py"), ("payload_arguments cnf", "session/grant.py")],
  ["token responses", "cnf of JWT access tokens"])

p("C21", "Published metadata is what the server does",
  "The discovery document is stable over requests, names the configured issuer and, for each configured endpoint, the URL under that issuer at which it is served; its jwks are exactly the public parts of the signing and encryption keys, never private or symmetric material. "
  "What it advertises (response types and modes, scopes, claims, grant types, authentication methods, algorithms) is what the endpoints accept and what it does not advertise among authentication methods is refused. "
  "WebFinger answers with this issuer for every valid resource and the OpenID issuer relation.",
  ["configurations", "inputs"],
  "generated endpoint subsets, paths, capabilities and authentication method sets; each advertised and unadvertised value tried at the endpoints",
  "The tests compare fixed key sets of one configuration.",
  ["oidc/provider_config.py", "endpoint_context.py", "endpoint.py", "oidc/discovery.py", "server.py", "util.py"],
  [("create_providerinfo", "endpoint_context.py"), ("ProviderConfiguration.process_request", "oidc/provider_config.py"), ("Discovery.process_request", "oidc/discovery.py")],
  ["provider configuration response", "jwks", "webfinger response"])

p("C22", "Users are authenticated, and sign-on is reused only when allowed",
  "No code or token is issued unless the user is authenticated now or by a valid session cookie of this server, and then only for that very user. "
  "prompt=none never shows a login and returns an error when a login would be needed, prompt=login and an authentication older than max_age always lead to a login, and an id_token_hint for another user is never satisfied with the cookie's user; an acr claim requested as essential is met by the authentication or the request is refused. "
  "A code or token obtained through sign-on answers the request it was asked with (its redirect_uri, nonce, claims and code_challenge), not an earlier one. "
  "A password or key method authenticates exactly the user who presents the right credential, whatever characters it has. A cookie whose session was revoked, logged out or removed does not authenticate.",
  ["histories", "inputs", "configurations"],
  "sequences of logins of several users at several clients with all combinations of prompt, max_age, id_token_hint, acr_values, cookies (own, other's, stale, tampered, missing) and clock advances",
  "The tests look at single requests with one user.",
  ["oauth2/authorization.py", "oidc/authorization.py", "user_authn/user.py", "user_authn/authn_context.py", "authn_event.py"],
  [("setup_auth / pick_authn_method", "oauth2/authorization.py"), ("authenticated_as", "user_authn/user.py"), ("acr_claims, re_authenticate", "oidc/authorization.py")],
  ["authorization endpoint outcome", "sub of the tokens issued"])

p("C23", "Responses are delivered in the right place, intact and uncacheable",
  "An authorization response is delivered in the mode asked for (query for code by default, fragment when tokens are returned, form_post when asked) and carries the state of the request unchanged, exactly the artefacts its response_type names, and no others, and the iss and client_id in it are this server and that client; tokens never appear in a query component. A response type the client did not register is refused. "
  "Whatever characters the state or other echoed values have, the browser receives them back byte for byte, and in form_post and login pages neither they nor what a client registered can add markup; a login page shows the links of the client that asks and of no other. "
  "Responses that carry tokens or user data have the content type of their format and forbid caching.",
  ["inputs", "configurations"],
  "all response types times response modes times success and error outcomes, with states and redirect URIs made of markup, separators, unicode and control characters",
  "The tests use alphanumeric states and check a few modes.",
  ["oauth2/authorization.py", "oidc/authorization.py", "endpoint.py", "oidc/userinfo.py", "util.py"],
  [("response_mode / inputs / FORM_POST", "oauth2/authorization.py"), ("Endpoint.do_response", "endpoint.py")],
  ["redirect URL, form page, headers"])

p("C24", "Request objects are trusted only when the client made them",
  "An authorization request given as a request object (by value or fetched from a request_uri) is served only if the object is signed with the registered secret or key of the client in the request, under the algorithm registered by the client if any, and not altered; an unsigned object is accepted only where the client registered none. "
  "The parameters served are those in the object. "
  "A request_uri outside the registered ones is never fetched.",
  ["inputs", "configurations"],
  "objects signed by the client, another client, unknown keys, wrong algorithm, alg none, altered in each part, by value and by reference, registered and unregistered request URIs, with conflicting outer parameters",
  "The tests use one or two good objects and one bad algorithm.",
  ["oauth2/authorization.py", "oidc/authorization.py", "client_authn.py"],
  [("_do_request_uri / _post_parse_request / AllowedAlgorithms", "oauth2/authorization.py")],
  ["authorization endpoint outcome", "stored authorization request", "HTTP fetches"])

p("C25", "Identifiers and packed values round-trip and never collide",
  "Packing then unpacking any list of values, encrypting then decrypting any text, and turning a user id, client id and grant id into a session id and back give the original values; two different inputs never give the same packed key. "
  "All issued identifiers (session ids, codes, access, refresh and ID tokens, client ids, secrets, pushed references, jti) are pairwise distinct over a server's life. "
  "A session id that was altered (other than into another spelling of the very same bytes) or made by another server never resolves to a session.",
  ["inputs", "histories"],
  "arbitrary strings (empty, separators, length prefixes, blanks at either end, unicode, long) and large numbers of issued identifiers on several servers",
  "The tests round-trip a few literals.",
  ["util.py", "session/database.py", "token/__init__.py", "__init__.py"],
  [("lv_pack/lv_unpack, Crypt", "util.py"), ("session_key/unpack_session_key/encrypted_session_id", "session/database.py")],
  ["return values"])

p("C26", "Refresh works as configured and never outlives its grant",
  "A refresh token is issued only where the rules, the client's grant types and offline_access or the integrator's choice call for one, and then a refresh by its client returns a new access token, and a new refresh token and ID Token where the refresh token's rules allow, all distinct from the ones before. "
  "With revoke_refresh_on_issue (client setting first, then the endpoint's) a refresh token that was exchanged for a new one is unusable afterwards, otherwise it stays usable until it expires or is revoked. "
  "A grant type that the client or endpoint does not support is refused and issues nothing.",
  ["histories", "configurations"],
  "all combinations of offline_access, issue_refresh, supported grant types, rotation settings at server and client, rules for the refresh token, over chains of refreshes with old and new tokens in any order",
  "The tests do one refresh in two configurations.",
  ["oauth2/token.py", "oidc/token.py", "session/grant.py", "session/token.py"],
  [("RefreshTokenHelper", "oidc/token.py, oauth2/token.py"), ("configure_grant_types", "oauth2/token.py")],
  ["token responses", "usability of old tokens"])

p("C27", "Serving requests never changes configuration or another server",
  "Over any history of requests the server's configuration, registered client data (apart from registration itself and the record of the authentication method used) and user data stay as they were, so that a request is answered the same way at the end of the history as a fresh server would answer it. "
  "Two servers in one process never influence each other: tokens, sessions, cookies, clients and settings of one are unknown to the other.",
  ["histories", "configurations"],
  "long generated request histories over configurations with per-client settings, followed by comparison of configuration snapshots and of a probe request's answer with the one on a fresh server; pairs of servers driven in alternation",
  "Every test builds a new server and stops after a few requests.",
  ["session/claims.py", "authz/__init__.py", "session/token.py", "session/grant.py", "endpoint.py", "configure.py", "token/handler.py", "oidc/add_on/pkce.py"],
  [("copies of client and server configuration", "session/claims.py, authz/__init__.py")],
  ["configuration snapshots", "probe responses"])

p("C28", "Malformed input is refused and leaves no trace",
  "Whatever bytes, types or parameter combinations are sent to any endpoint, the answer to a request that is not a valid one is an error or exception, never a token, claim or registration, and it does not damage the server. "
  "After any amount of such input, sessions, clients and tokens are as before and every previously valid request is still served.",
  ["inputs", "fault_sequences"],
  "structure-aware mutations (dropped, duplicated, emptied, retyped, oversized, unicode, nested parameters; broken headers, cookies and JWTs) of valid requests at every endpoint, with exceptions injected into storage, user database, crypto and HTTP fetches while requests are processed",
  "The tests send a few malformed requests, one per server.",
  ["endpoint.py", "client_authn.py", "oauth2/authorization.py", "oauth2/token.py", "oidc/userinfo.py", "oidc/registration.py", "oidc/session.py", "oauth2/introspection.py"],
  [("Endpoint.parse_request", "endpoint.py")],
  ["endpoint responses", "session store before and after"])

p("C29", "Everything the server says about a token agrees",
  "The client, subject, scope, audience, issue and expiry time of an access token are the same in the token response, in the token itself when it is a JWT, in the introspection answer and in the session record, at every moment of its life. "
  "expires_in counts down to the moment the token itself expires (its grant may end it earlier). "
  "Introspection of one client's token by any authenticated client reports the owner, never the caller.",
  ["histories", "configurations"],
  "access tokens obtained by every flow (code, implicit, hybrid, refresh) under generated usage rules, handler lifetimes and scope requests, observed at several clock positions",
  "The tests check each representation separately and never against each other.",
  ["session/grant.py", "token/jwt_token.py", "oauth2/introspection.py", "oauth2/token.py", "oidc/token.py", "oauth2/authorization.py"],
  [("payload_arguments", "session/grant.py"), ("_introspect", "oauth2/introspection.py"), ("_mint_token", "oauth2/token.py")],
  ["token response", "JWT payload", "introspection response", "session record"])

p("C30", "Userinfo answers in the form the client registered",
  "The userinfo response is plain JSON, a JWT signed with the registered algorithm and the server's key, or encrypted to the registered client's key, exactly as the client registered, with iss and aud set when signed, the content type matching, and the same claims in every form. "
  "Only the holder of a valid access token with openid scope's session gets it, and it always contains the session's sub. "
  "Where the user's authentication has passed its validity, no claim is released.",
  ["configurations", "inputs"],
  "all supported signing and encryption algorithm registrations, header and body token placement, several users and clients, clock advances past the authentication validity",
  "The tests decode one signed response.",
  ["oidc/userinfo.py", "endpoint.py"],
  [("do_response / process_request", "oidc/userinfo.py")],
  ["userinfo responses and headers"])

p("C31", "A configuration means what it says",
  "A configuration object holds exactly the values it was given, with {domain} and {port} filled in where they stand in an issuer or base URL and relative file and directory names placed below base_path, and for each parameter left out the documented default; a server built from it uses those values (lifetimes, usage rules, scopes, capabilities, cookie names, HTTP client parameters), and so does one built from the extended configuration the package ships (DEFAULT_EXTENDED_CONF); TLS certificates are verified unless the configuration says otherwise when a plain dictionary configures the server. "
  "Dictionary, JSON and YAML forms of one configuration give the same object. "
  "Neither the values given nor the module's defaults are ever changed, and no two configurations share anything that can be changed, nor does configuring logging change them.",
  ["configurations", "inputs"],
  "random subsets of all parameters with generated nested values, placeholders and file names, with and without base_path, as provider or authorization server, as dictionary or file; servers from which random subsets of parameters are left out, driven to the ends of all lifetimes",
  "The tests load one complete configuration and look at a few members.",
  ["configure.py", "server.py", "endpoint_context.py", "util.py"],
  [("EntityConfiguration.__init__", "configure.py"), ("OP_DEFAULT_CONFIG", "configure.py"), ("get_http_params", "util.py")],
  ["configuration object", "behaviour of the server built from it"])

p("C32", "Cookies and session_state are what browsers and clients need",
  "Where session management is configured (check_session_iframe), every successful authorization response sets one session management cookie and carries a session_state that the client's page can verify with that cookie's value, its client_id and its origin as a browser states it, and that verifies for no other client or origin; salts are never repeated, and without that configuration there is neither. "
  "Every cookie made has the configured name and flags and the lifetime asked for (max-age in seconds, none for a session cookie, an expiry in the past for deletion), and the cookies that end a logout delete both the session and the session management cookie.",
  ["configurations", "histories"],
  "clients with generated redirect URIs (ports, default ports, capitals, queries, IPv6) and colliding identifiers, several browsers with histories of logins, sign-ons and logouts, generated cookie names, flags, keys and lifetimes",
  "The tests compute one session_state for one URL and look at the names of cookie members only.",
  ["cookie_handler.py", "oauth2/authorization.py", "oidc/session.py", "endpoint_context.py"],
  [("compute_session_state", "cookie_handler.py"), ("make_cookie_content", "cookie_handler.py"), ("authz_part2", "oauth2/authorization.py"), ("kill_cookies", "oidc/session.py")],
  ["authorization responses", "cookies set", "discovery document"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
