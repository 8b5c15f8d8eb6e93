From 420cf1651c6ab7667ddd2aed96a42408a7e8a8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:50 +0000
Subject: [PATCH 01/93] fix: introspection answers active:false for expired,
 deleted and revoked-session tokens

---
 src/oidcop/oauth2/introspection.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/oauth2/introspection.py b/src/oidcop/oauth2/introspection.py
index c298c12..8c5a797 100644
--- a/src/oidcop/oauth2/introspection.py
+++ b/src/oidcop/oauth2/introspection.py
@@ -5,6 +5,7 @@ from typing import Optional
 from oidcmsg import oauth2
 
 from oidcop.endpoint import Endpoint
+from oidcop.exception import ToOld
 from oidcop.token.exception import UnknownToken
 from oidcop.token.exception import WrongTokenClass
 
@@ -95,11 +96,14 @@ class Introspection(Endpoint):
             _session_info = _context.session_manager.get_session_info_by_token(
                 request_token, grant=True
             )
-        except (UnknownToken, WrongTokenClass):
+        except (UnknownToken, WrongTokenClass, ToOld, KeyError, ValueError):
+            # Unknown, expired or connected to a session that doesn't exist anymore
             return {"response_args": _resp}
 
         grant = _session_info["grant"]
         _token = grant.get_token(request_token)
+        if _token is None or not grant.is_active():
+            return {"response_args": _resp}
 
         _info = self._introspect(_token, _session_info["client_id"], _session_info["grant"])
         if _info is None:
-- 
2.43.0


From 7ff12e40feda02086238d6c426e3fc77d3290ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:50 +0000
Subject: [PATCH 02/93] fix: userinfo refuses access tokens of a revoked or
 expired grant

---
 src/oidcop/oidc/userinfo.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/oidcop/oidc/userinfo.py b/src/oidcop/oidc/userinfo.py
index 6e6ce97..34a8484 100755
--- a/src/oidcop/oidc/userinfo.py
+++ b/src/oidcop/oidc/userinfo.py
@@ -117,12 +117,15 @@ class UserInfo(Endpoint):
 
         _grant = _session_info["grant"]
         token = _grant.get_token(request["access_token"])
+        if token is None:
+            return self.error_cls(error="invalid_token", error_description="Invalid Token")
+
         # should be an access token
-        if token and token.token_class != "access_token":
+        if token.token_class != "access_token":
             return self.error_cls(error="invalid_token", error_description="Wrong type of token")
 
-        # And it should be valid
-        if token.is_active() is False:
+        # And it should be valid and belong to a grant that is still valid
+        if token.is_active() is False or _grant.is_active() is False:
             return self.error_cls(error="invalid_token", error_description="Invalid Token")
 
         allowed = True
-- 
2.43.0


From feed48f246c2c99051955f0d8a80cc9f6fb53085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:22 +0000
Subject: [PATCH 03/93] fix: token endpoint answers invalid_grant for an
 expired JWT code or refresh token

---
 src/oidcop/oauth2/token.py | 5 +++--
 src/oidcop/oidc/token.py   | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/oidcop/oauth2/token.py b/src/oidcop/oauth2/token.py
index bfee6df..c02495a 100755
--- a/src/oidcop/oauth2/token.py
+++ b/src/oidcop/oauth2/token.py
@@ -14,6 +14,7 @@ from oidcop import sanitize
 from oidcop.constant import DEFAULT_TOKEN_LIFETIME
 from oidcop.endpoint import Endpoint
 from oidcop.exception import ProcessError
+from oidcop.exception import ToOld
 from oidcop.session.grant import AuthorizationCode
 from oidcop.session.grant import Grant
 from oidcop.session.grant import RefreshToken
@@ -205,7 +206,7 @@ class AccessTokenHelper(TokenEndpointHelper):
         _mngr = self.endpoint.server_get("endpoint_context").session_manager
         try:
             _session_info = _mngr.get_session_info_by_token(request["code"], grant=True)
-        except (KeyError, UnknownToken):
+        except (KeyError, UnknownToken, ToOld):
             logger.error("Access Code invalid")
             return self.error_cls(error="invalid_grant", error_description="Unknown code")
 
@@ -332,7 +333,7 @@ class RefreshTokenHelper(TokenEndpointHelper):
         _mngr = _context.session_manager
         try:
             _session_info = _mngr.get_session_info_by_token(request["refresh_token"], grant=True)
-        except KeyError:
+        except (KeyError, UnknownToken, ToOld):
             logger.error("Access Code invalid")
             return self.error_cls(error="invalid_grant")
 
diff --git a/src/oidcop/oidc/token.py b/src/oidcop/oidc/token.py
index 337588b..92abc66 100755
--- a/src/oidcop/oidc/token.py
+++ b/src/oidcop/oidc/token.py
@@ -12,6 +12,7 @@ from oidcmsg.oidc import TokenErrorResponse
 
 from oidcop import oauth2
 from oidcop import sanitize
+from oidcop.exception import ToOld
 from oidcop.oauth2.token import TokenEndpointHelper
 from oidcop.session.grant import AuthorizationCode
 from oidcop.session.grant import RefreshToken
@@ -172,7 +173,7 @@ class AccessTokenHelper(TokenEndpointHelper):
         _mngr = self.endpoint.server_get("endpoint_context").session_manager
         try:
             _session_info = _mngr.get_session_info_by_token(request["code"], grant=True)
-        except (KeyError, UnknownToken):
+        except (KeyError, UnknownToken, ToOld):
             logger.error("Access Code invalid")
             return self.error_cls(error="invalid_grant", error_description="Unknown code")
 
@@ -326,7 +327,7 @@ class RefreshTokenHelper(TokenEndpointHelper):
         _mngr = _context.session_manager
         try:
             _session_info = _mngr.get_session_info_by_token(request["refresh_token"], grant=True)
-        except KeyError:
+        except (KeyError, UnknownToken, ToOld):
             logger.error("Access Code invalid")
             return self.error_cls(error="invalid_grant")
 
-- 
2.43.0


From 3236899f8a84d78bfc5a9b3c934135ea8e7b7854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:36 +0000
Subject: [PATCH 04/93] fix: one token lifetime for session record and token
 value, negative expires_in means never

---
 src/oidcop/oauth2/authorization.py |  6 ------
 src/oidcop/oauth2/token.py         | 12 ------------
 src/oidcop/session/grant.py        |  6 ++++++
 src/oidcop/token/jwt_token.py      |  7 +++++--
 4 files changed, 11 insertions(+), 20 deletions(-)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index 86b7ce8..0c71206 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -337,12 +337,6 @@ class Authorization(Endpoint):
             **kwargs,
         )
 
-        _exp_in = usage_rules.get("expires_in")
-        if isinstance(_exp_in, str):
-            _exp_in = int(_exp_in)
-        if _exp_in:
-            token.expires_at = utc_time_sans_frac() + _exp_in
-
         _mngr = self.server_get("endpoint_context").session_manager
         _mngr.set(_mngr.unpack_session_key(session_id), grant)
 
diff --git a/src/oidcop/oauth2/token.py b/src/oidcop/oauth2/token.py
index c02495a..3919852 100755
--- a/src/oidcop/oauth2/token.py
+++ b/src/oidcop/oauth2/token.py
@@ -11,7 +11,6 @@ from oidcmsg.oidc import TokenErrorResponse
 from oidcmsg.time_util import utc_time_sans_frac
 
 from oidcop import sanitize
-from oidcop.constant import DEFAULT_TOKEN_LIFETIME
 from oidcop.endpoint import Endpoint
 from oidcop.exception import ProcessError
 from oidcop.exception import ToOld
@@ -59,10 +58,6 @@ class TokenEndpointHelper(object):
         _context = self.endpoint.server_get("endpoint_context")
         _mngr = _context.session_manager
         usage_rules = grant.usage_rules.get(token_class)
-        if usage_rules:
-            _exp_in = usage_rules.get("expires_in")
-        else:
-            _exp_in = DEFAULT_TOKEN_LIFETIME
 
         token_args = token_args or {}
         for meth in _context.token_args_methods:
@@ -85,13 +80,6 @@ class TokenEndpointHelper(object):
             **_args,
         )
 
-        if _exp_in:
-            if isinstance(_exp_in, str):
-                _exp_in = int(_exp_in)
-
-            if _exp_in:
-                token.expires_at = utc_time_sans_frac() + _exp_in
-
         _context.session_manager.set(_context.session_manager.unpack_session_key(session_id), grant)
 
         return token
diff --git a/src/oidcop/session/grant.py b/src/oidcop/session/grant.py
index a7c6f8d..1f6e3c6 100644
--- a/src/oidcop/session/grant.py
+++ b/src/oidcop/session/grant.py
@@ -329,6 +329,12 @@ class Grant(Item):
 
             if token_class == "id_token":
                 item.session_id = session_id
+            elif item.expires_at == 0:
+                # The same lifetime as the token value gets. A negative value means it
+                # never expires.
+                lifetime = int((usage_rules or {}).get("expires_in") or token_handler.lifetime)
+                if lifetime > 0:
+                    item.set_expires_at(lifetime)
 
             token_payload = self.payload_arguments(
                 session_id,
diff --git a/src/oidcop/token/jwt_token.py b/src/oidcop/token/jwt_token.py
index d865349..36ba3e2 100644
--- a/src/oidcop/token/jwt_token.py
+++ b/src/oidcop/token/jwt_token.py
@@ -73,9 +73,11 @@ class JWTToken(Token):
         # payload.update(kwargs)
         _context = self.server_get("endpoint_context")
         if usage_rules and "expires_in" in usage_rules:
-            lifetime = usage_rules.get("expires_in")
+            lifetime = int(usage_rules.get("expires_in") or self.lifetime)
         else:
             lifetime = self.lifetime
+        if lifetime < 0:  # Live for ever
+            lifetime = 0
         signer = JWT(
             key_jar=_context.keyjar,
             iss=self.issuer,
@@ -113,6 +115,7 @@ class JWTToken(Token):
         else:
             _payload["token_class"] = self.token_class
 
+        _payload.setdefault("exp", -1)  # No exp means it lives for ever
         if is_expired(_payload["exp"]):
             raise ToOld("Token has expired")
         # All the token metadata
@@ -133,7 +136,7 @@ class JWTToken(Token):
         :return: True/False
         """
         _payload = self.get_payload(token)
-        return is_expired(_payload["exp"], when)
+        return is_expired(_payload.get("exp", -1), when)
 
     def gather_args(self, sid, sdb, udb):
         # sdb[sid]
-- 
2.43.0


From 09e9192fb594c6a907dcf694f24bcd0d52f911c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:06 +0000
Subject: [PATCH 05/93] fix: token endpoint answers an error for codes and
 refresh tokens of an inactive grant

---
 src/oidcop/oauth2/token.py | 4 ++--
 src/oidcop/oidc/token.py   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/oidcop/oauth2/token.py b/src/oidcop/oauth2/token.py
index 3919852..47657a4 100755
--- a/src/oidcop/oauth2/token.py
+++ b/src/oidcop/oauth2/token.py
@@ -203,7 +203,7 @@ class AccessTokenHelper(TokenEndpointHelper):
         if not isinstance(code, AuthorizationCode):
             return self.error_cls(error="invalid_request", error_description="Wrong token type")
 
-        if code.is_active() is False:
+        if code.is_active() is False or grant.is_active() is False:
             return self.error_cls(error="invalid_request", error_description="Code inactive")
 
         _auth_req = grant.authorization_request
@@ -331,7 +331,7 @@ class RefreshTokenHelper(TokenEndpointHelper):
         if not isinstance(token, RefreshToken):
             return self.error_cls(error="invalid_request", error_description="Wrong token type")
 
-        if token.is_active() is False:
+        if token.is_active() is False or grant.is_active() is False:
             return self.error_cls(
                 error="invalid_request", error_description="Refresh token inactive"
             )
diff --git a/src/oidcop/oidc/token.py b/src/oidcop/oidc/token.py
index 92abc66..6c38c04 100755
--- a/src/oidcop/oidc/token.py
+++ b/src/oidcop/oidc/token.py
@@ -187,7 +187,7 @@ class AccessTokenHelper(TokenEndpointHelper):
             grant.revoke_token(based_on=request["code"], recursive=True)
             return self.error_cls(error="invalid_grant", error_description="Code inactive")
 
-        if code.is_active() is False:
+        if code.is_active() is False or grant.is_active() is False:
             return self.error_cls(error="invalid_grant", error_description="Code inactive")
 
         _auth_req = grant.authorization_request
@@ -337,7 +337,7 @@ class RefreshTokenHelper(TokenEndpointHelper):
         if not isinstance(token, RefreshToken):
             return self.error_cls(error="invalid_request", error_description="Wrong token type")
 
-        if token.is_active() is False:
+        if token.is_active() is False or grant.is_active() is False:
             return self.error_cls(
                 error="invalid_request", error_description="Refresh token inactive"
             )
-- 
2.43.0


From fa6b3c12d5361c47b5f95e6c828738a9c53990fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:06 +0000
Subject: [PATCH 06/93] fix: user information never overrides sub, aud,
 client_id or scope of a token or its introspection

---
 src/oidcop/oauth2/introspection.py | 3 ++-
 src/oidcop/session/grant.py        | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/oidcop/oauth2/introspection.py b/src/oidcop/oauth2/introspection.py
index 8c5a797..f59f159 100644
--- a/src/oidcop/oauth2/introspection.py
+++ b/src/oidcop/oauth2/introspection.py
@@ -125,7 +125,8 @@ class Introspection(Endpoint):
                 _session_info["user_id"], _claims_restriction
             )
             if user_info:
-                _resp.update(user_info)
+                # never let user information override what describes the token
+                _resp.update({k: v for k, v in user_info.items() if k not in _resp})
 
         _resp["active"] = True
 
diff --git a/src/oidcop/session/grant.py b/src/oidcop/session/grant.py
index 1f6e3c6..b7c5cd9 100644
--- a/src/oidcop/session/grant.py
+++ b/src/oidcop/session/grant.py
@@ -237,7 +237,8 @@ class Grant(Item):
         )
         user_id, _, _ = endpoint_context.session_manager.decrypt_session_id(session_id)
         user_info = endpoint_context.claims_interface.get_user_claims(user_id, _claims_restriction)
-        payload.update(user_info)
+        # What identifies the token can not be overridden by what's known about the user
+        payload = {**user_info, **payload}
 
         # Should I add the acr value
         if self.add_acr_value(claims_release_point):
-- 
2.43.0


From f27acd5d58e98aaf7fa58219b1ee20760bc042ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:06 +0000
Subject: [PATCH 07/93] fix: plain user identifiers that happen to be base64
 characters do not crash the authorization endpoint

---
 src/oidcop/oauth2/authorization.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index 0c71206..92db3a0 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -512,9 +512,12 @@ class Authorization(Endpoint):
     def _unwrap_identity(self, identity):
         if isinstance(identity, dict):
             try:
-                _id = b64d(as_bytes(identity["uid"]))
-            except BadSyntax:
+                _unwrapped = json.loads(as_unicode(b64d(as_bytes(identity["uid"]))))
+            except (BadSyntax, ValueError):  # a plain user identifier
                 return identity
+            if not isinstance(_unwrapped, dict):
+                return identity
+            return _unwrapped
         else:
             _id = b64d(as_bytes(identity))
 
-- 
2.43.0


From b0e694060dbb41cc1bbf44134c047129d9dc84f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:29 +0000
Subject: [PATCH 08/93] fix: a server whose token handlers all are JWTs can
 start without token keys

---
 src/oidcop/token/handler.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/token/handler.py b/src/oidcop/token/handler.py
index c4fb238..3ed53db 100755
--- a/src/oidcop/token/handler.py
+++ b/src/oidcop/token/handler.py
@@ -185,7 +185,10 @@ def factory(
                 if default_token(cnf):
                     key_defs.append({"type": "oct", "bytes": 24, "use": ["enc"], "kid": kid})
 
-    kj = init_key_jar(key_defs=key_defs, private_path=jwks_file, read_only=read_only)
+    if key_defs:
+        kj = init_key_jar(key_defs=key_defs, private_path=jwks_file, read_only=read_only)
+    else:  # No handler that needs a key of its own
+        kj = None
 
     args = {}
     for cls, cnf, attr in [
-- 
2.43.0


From 217602dafa11fe3b4473910881afe8ab09322ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:02 +0000
Subject: [PATCH 09/93] fix: redirect URIs are compared exactly as received
 against every registered one

A percent-encoded registered URI was refused and decoded variants were accepted, blank
parameters and control characters were ignored, and an entry with the same base but another
query hid the following ones.
---
 src/oidcop/oauth2/authorization.py | 67 ++++++++++++------------------
 src/oidcop/util.py                 |  2 +-
 2 files changed, 27 insertions(+), 42 deletions(-)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index 92db3a0..cfb5a7f 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -3,9 +3,7 @@ import logging
 from typing import List
 from typing import Optional
 from typing import Union
-from urllib.parse import unquote
 from urllib.parse import urlencode
-from urllib.parse import urlparse
 
 from cryptojwt import BadSyntax
 from cryptojwt import as_unicode
@@ -116,13 +114,14 @@ def verify_uri(
     if _uri is None:
         raise ValueError(f"Wrong uri_type: {uri_type}")
 
-    _redirect_uri = unquote(_uri)
-
-    part = urlparse(_redirect_uri)
-    if part.fragment:
+    # The URI is compared as it was received, hence nothing is decoded here.
+    if "#" in _uri:
         raise URIError("Contains fragment")
+    # Control characters and blanks are not allowed in a URI, and urlsplit silently removes some.
+    if any(ord(c) <= 0x20 or ord(c) == 0x7F for c in _uri):
+        raise URIError("Contains illegal characters")
 
-    (_base, _query) = split_uri(_redirect_uri)
+    (_base, _query) = split_uri(_uri)
 
     # Get the clients registered redirect uris
     client_info = endpoint_context.cdb.get(_cid)
@@ -134,45 +133,30 @@ def verify_uri(
     if redirect_uris is None:
         raise RedirectURIError(f"No registered {uri_type} for {_cid}")
     else:
-        match = False
+        same_base = False
         for _item in redirect_uris:
             if isinstance(_item, str):
-                regbase = _item
-                rquery = {}
+                regbase, rquery = split_uri(_item)
             else:
                 regbase, rquery = _item
 
-            # The URI MUST exactly match one of the Redirection URI
+            # The URI MUST exactly match one of the Redirection URI, this includes that every
+            # registered query component must exist in the uri and vice versa.
             if _base == regbase:
-                # every registered query component must exist in the uri
-                if rquery:
-                    if not _query:
-                        raise ValueError("Missing query part")
-
-                    for key, vals in rquery.items():
-                        if key not in _query:
-                            raise ValueError('"{}" not in query part'.format(key))
-
-                        for val in vals:
-                            if val not in _query[key]:
-                                raise ValueError("{}={} value not in query part".format(key, val))
-
-                # and vice versa, every query component in the uri
-                # must be registered
-                if _query:
-                    if not rquery:
-                        raise ValueError("No registered query part")
-
-                    for key, vals in _query.items():
-                        if key not in rquery:
-                            raise ValueError('"{}" extra in query part'.format(key))
-                        for val in vals:
-                            if val not in rquery[key]:
-                                raise ValueError("Extra {}={} value in query part".format(key, val))
-                match = True
-                break
-        if not match:
-            raise RedirectURIError("Doesn't match any registered uris")
+                if _query_components(_query) == _query_components(rquery):
+                    return
+                same_base = True
+
+        if same_base:
+            raise ValueError("The query part doesn't match what is registered")
+        raise RedirectURIError("Doesn't match any registered uris")
+
+
+def _query_components(query: Optional[dict]) -> dict:
+    return {
+        key: sorted([vals] if isinstance(vals, str) else vals)
+        for key, vals in (query or {}).items()
+    }
 
 
 def join_query(base, query):
@@ -212,7 +196,8 @@ def get_uri(endpoint_context, request, uri_type):
             if len(_specs) > 1:
                 raise ParameterError(f"Missing '{uri_type}' and more than one registered")
 
-            uri = join_query(*_specs[0])
+            _spec = _specs[0]
+            uri = _spec if isinstance(_spec, str) else join_query(*_spec)
         else:
             raise UnknownClient(client_id)
 
diff --git a/src/oidcop/util.py b/src/oidcop/util.py
index 5800405..420527c 100755
--- a/src/oidcop/util.py
+++ b/src/oidcop/util.py
@@ -190,7 +190,7 @@ def split_uri(uri):
     if p.query:
         o = p._replace(query="")
         base = urlunsplit(o)
-        return base, parse_qs(p.query)
+        return base, parse_qs(p.query, keep_blank_values=True)
     else:
         base = urlunsplit(p)
         return base, ""
-- 
2.43.0


From cc96b57d89d6b7b485afd5344917dbdd2d69e21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:07 +0000
Subject: [PATCH 10/93] fix: OAuth2 authorization responses need not contain a
 code

---
 src/oidcop/oauth2/authorization.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index cfb5a7f..de7f517 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -262,7 +262,8 @@ def check_unknown_scopes_policy(request_info, client_id, endpoint_context):
 
 class Authorization(Endpoint):
     request_cls = oauth2.AuthorizationRequest
-    response_cls = oauth2.AuthorizationResponse
+    # code is not required in this response, it's not there if the response_type is token or none
+    response_cls = AuthorizationResponse
     error_cls = oauth2.AuthorizationErrorResponse
     request_format = "urlencoded"
     response_format = "urlencoded"
-- 
2.43.0


From c193bc47e319929f188020f0c4d02fa30a8e4761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:02 +0000
Subject: [PATCH 11/93] fix: deliver login_required and similar errors to the
 client's redirect URI when a response_mode is given

---
 src/oidcop/oauth2/authorization.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index de7f517..2556412 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -983,7 +983,9 @@ class Authorization(Endpoint):
 
         if "error" in info:
             if "response_mode" in request:
-                return self.response_mode(request, info)
+                _return_uri = info.pop("return_uri")
+                info.pop("return_type", None)
+                return self.response_mode(request, info, return_uri=_return_uri)
             else:
                 return info
 
-- 
2.43.0


From e913bd9e1e0f4875b0b57e5d61dac55ecc491d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:58 +0000
Subject: [PATCH 12/93] fix: refuse client assertions whose issuer and subject
 differ

---
 src/oidcop/client_authn.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/oidcop/client_authn.py b/src/oidcop/client_authn.py
index a34e632..0a0b22d 100755
--- a/src/oidcop/client_authn.py
+++ b/src/oidcop/client_authn.py
@@ -208,6 +208,10 @@ class JWSAuthnMethod(ClientAuthnMethod):
             if key_type == "client_secret":
                 raise AttributeError("Wrong key type")
 
+        # The client is both the issuer and the subject of the assertion
+        if "sub" in ca_jwt and ca_jwt["sub"] != ca_jwt["iss"]:
+            raise AuthnFailure("Issuer and subject of client_assertion differ")
+
         authtoken = sanitize(ca_jwt.to_dict())
         logger.debug("authntoken: {}".format(authtoken))
 
-- 
2.43.0


From f735d5ec94df463e8e1be6245b87018b7dd4cc39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:44 +0000
Subject: [PATCH 13/93] fix: honour the documented allowed_scopes
 configuration, and scopes_to_claims for OAuth2 servers

---
 src/oidcop/configure.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/configure.py b/src/oidcop/configure.py
index 06332d2..d38c42c 100755
--- a/src/oidcop/configure.py
+++ b/src/oidcop/configure.py
@@ -95,6 +95,7 @@ class EntityConfiguration(Base):
     uris = ["issuer", "base_url"]
     parameter = {
         "add_on": None,
+        "allowed_scopes": [],
         "authz": None,
         "authentication": None,
         "base_url": "",
@@ -106,6 +107,7 @@ class EntityConfiguration(Base):
         "httpc_params": {},
         "issuer": "",
         "keys": None,
+        "scopes_to_claims": {},
         "session_params": None,
         "template_dir": None,
         "token_handler_args": {},
@@ -165,7 +167,6 @@ class OPConfiguration(EntityConfiguration):
             "login_hint2acrs": {},
             "login_hint_lookup": None,
             "sub_func": {},
-            "scopes_to_claims": {},
         }
     )
 
-- 
2.43.0


From 332d8b618e8757c7c253a1abfe7c5f980759d4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:13 +0000
Subject: [PATCH 14/93] fix: per-client token usage rules are not altered by
 the tokens issued under them

---
 src/oidcop/authz/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/authz/__init__.py b/src/oidcop/authz/__init__.py
index 72b6979..c610ccf 100755
--- a/src/oidcop/authz/__init__.py
+++ b/src/oidcop/authz/__init__.py
@@ -30,7 +30,9 @@ class AuthzHandling(object):
             return _usage_rules
 
         try:
-            _per_client = self.server_get("endpoint_context").cdb[client_id]["token_usage_rules"]
+            _per_client = copy.deepcopy(
+                self.server_get("endpoint_context").cdb[client_id]["token_usage_rules"]
+            )
         except KeyError:
             pass
         else:
-- 
2.43.0


From 2e67e34f454562dba82828c25f0f45a6167c9f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:13 +0000
Subject: [PATCH 15/93] fix: a grant created by single sign-on gets the
 client's token usage rules

---
 src/oidcop/oauth2/authorization.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index 2556412..10188a1 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -624,6 +624,7 @@ class Authorization(Endpoint):
                             auth_req=request,
                             user_id=user,
                             client_id=request["client_id"],
+                            token_usage_rules=_context.authz.usage_rules(request["client_id"]),
                         )
 
         if _session_id:
-- 
2.43.0


From 4aff97d152b4f806281101dba8ad08c0470db567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:13 +0000
Subject: [PATCH 16/93] fix: authz.Implicit applies the grant configuration
 instead of crashing

---
 src/oidcop/authz/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcop/authz/__init__.py b/src/oidcop/authz/__init__.py
index c610ccf..0612881 100755
--- a/src/oidcop/authz/__init__.py
+++ b/src/oidcop/authz/__init__.py
@@ -105,7 +105,7 @@ class Implicit(AuthzHandling):
     ) -> Grant:
         args = self.grant_config.copy()
         grant = self.server_get("endpoint_context").session_manager.get_grant(session_id=session_id)
-        for arg, val in args:
+        for arg, val in args.items():
             setattr(grant, arg, val)
         return grant
 
-- 
2.43.0


From 0879d20823700442637817661d0b0864ea58f64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:17 +0000
Subject: [PATCH 17/93] fix: claims of one client's configuration override the
 module's and are not changed by use

---
 src/oidcop/session/claims.py | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/src/oidcop/session/claims.py b/src/oidcop/session/claims.py
index bcea058..dabe317 100755
--- a/src/oidcop/session/claims.py
+++ b/src/oidcop/session/claims.py
@@ -67,22 +67,25 @@ class ClaimsInterface:
         secondary_identifier: Optional[str] = "",
     ):
         _context = self.server_get("endpoint_context")
-        add_claims_by_scope = _context.cdb[client_id].get("add_claims", {}).get("by_scope", {})
-        if add_claims_by_scope:
-            _claims_by_scope = add_claims_by_scope.get(claims_release_point, False)
-            if not _claims_by_scope and secondary_identifier:
-                _claims_by_scope = add_claims_by_scope.get(secondary_identifier, False)
-
-            if not _claims_by_scope:
-                _claims_by_scope = module.kwargs.get("add_claims_by_scope", {})
-        else:
-            _claims_by_scope = module.kwargs.get("add_claims_by_scope", {})
+        _add_claims = _context.cdb[client_id].get("add_claims", {})
 
-        add_claims_always = _context.cdb[client_id].get("add_claims", {}).get("always", {})
-        _always_add = add_claims_always.get(claims_release_point, [])
-        if secondary_identifier:
-            _always_2 = add_claims_always.get(secondary_identifier, [])
-            _always_add.extend(_always_2)
+        # What the client configuration says overrides the module configuration
+        add_claims_by_scope = _add_claims.get("by_scope", {})
+        _claims_by_scope = add_claims_by_scope.get(
+            claims_release_point, module.kwargs.get("add_claims_by_scope", {})
+        )
+        if not _claims_by_scope and secondary_identifier:
+            _claims_by_scope = add_claims_by_scope.get(secondary_identifier, False)
+
+        # A list of claim names or a dictionary, never touch the client configuration itself
+        add_claims_always = _add_claims.get("always", {})
+        _always_add = {}
+        for _point in (claims_release_point, secondary_identifier):
+            _always = add_claims_always.get(_point) if _point else None
+            if _always:
+                _always_add.update(
+                    _always if isinstance(_always, dict) else {k: None for k in _always}
+                )
 
         return _claims_by_scope, _always_add
 
-- 
2.43.0


From 9e7d4e33b27613b7c261e145ae1b992ee83a35f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:17 +0000
Subject: [PATCH 18/93] fix: a claims parameter that is not a claims request
 (OAuth2) is ignored

---
 src/oidcop/session/claims.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/session/claims.py b/src/oidcop/session/claims.py
index dabe317..13383b7 100755
--- a/src/oidcop/session/claims.py
+++ b/src/oidcop/session/claims.py
@@ -2,6 +2,7 @@ import logging
 from typing import Optional
 from typing import Union
 
+from oidcmsg.message import Message
 from oidcmsg.oidc import OpenIDSchema
 
 from oidcop.exception import ImproperlyConfigured
@@ -36,7 +37,9 @@ class ClaimsInterface:
         claims_release_point: Optional[str] = "",
     ) -> dict:
         if authorization_request and "claims" in authorization_request:
-            return authorization_request["claims"].get(claims_release_point, {})
+            _claims = authorization_request["claims"]
+            if isinstance(_claims, (dict, Message)):
+                return _claims.get(claims_release_point, {})
 
         return {}
 
-- 
2.43.0


From d4361b1269a815db7998220ab28d18b7297e720a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:48 +0000
Subject: [PATCH 19/93] fix: values in a form_post page are escaped

---
 src/oidcop/oauth2/authorization.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index 10188a1..b64824a 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -1,5 +1,6 @@
 import json
 import logging
+from html import escape
 from typing import List
 from typing import Optional
 from typing import Union
@@ -78,7 +79,7 @@ def inputs(form_args):
     for name, value in form_args.items():
         if name == "scope" and isinstance(value, list):
             value = " ".join(value)
-        element.append(html_field.format(name, value))
+        element.append(html_field.format(escape(str(name)), escape(str(value))))
     return "\n".join(element)
 
 
@@ -661,7 +662,7 @@ class Authorization(Endpoint):
                 if "return_type" in _args:
                     del _args["return_type"]
 
-            msg = FORM_POST.format(inputs=inputs(_args), action=return_uri)
+            msg = FORM_POST.format(inputs=inputs(_args), action=escape(return_uri))
             kwargs.update(
                 {
                     "response_msg": msg,
-- 
2.43.0


From d6ef008cb749a5eaa54c2dbf709205b9159f4838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:21 +0000
Subject: [PATCH 20/93] fix: error responses always have somewhere to go and
 form_post responses are complete

---
 src/oidcop/oauth2/authorization.py | 51 +++++++++++++++++++-----------
 1 file changed, 32 insertions(+), 19 deletions(-)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index b64824a..e5eb4dd 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -693,14 +693,31 @@ class Authorization(Endpoint):
             request, error=error, error_description=str(error_description)
         )
         response_info["response_args"] = resp
+        # Where the error goes and, if nothing else is said, how
+        response_info["return_uri"] = request["redirect_uri"]
+        response_info["return_type"] = request["response_type"]
+        response_info.pop("fragment_enc", None)
         return response_info
 
     def error_by_response_mode(self, response_info, request, error, error_description):
         response_info = self.error_response(response_info, request, error, error_description)
-        if "return_uri" not in response_info:
-            response_info["return_uri"] = request["redirect_uri"]
-        response_info = self.response_mode(request, **response_info)
-        return response_info
+        return self.use_response_mode(request, response_info)
+
+    def use_response_mode(self, request, response_info):
+        """
+        Applies the response_mode of the request, if there is one. The response_mode should not
+        be set if it's obvious from the response_type. Knows about 'query', 'fragment' and
+        'form_post'.
+        """
+        if "response_mode" not in request:
+            return response_info
+
+        try:
+            return self.response_mode(request, **response_info)
+        except InvalidRequest as err:
+            return self.error_response(
+                {}, request, "invalid_request", "{}".format(err.args)
+            )
 
     def create_authn_response(self, request: Union[dict, Message], sid: str) -> dict:
         """
@@ -849,18 +866,6 @@ class Authorization(Endpoint):
         else:
             response_info["return_uri"] = redirect_uri
 
-        # Now about the response_mode. Should not be set if it's obvious
-        # from the response_type. Knows about 'query', 'fragment' and
-        # 'form_post'.
-
-        if "response_mode" in request:
-            try:
-                response_info = self.response_mode(request, **response_info)
-            except InvalidRequest as err:
-                return self.error_response(
-                    response_info, request, "invalid_request", "{}".format(err.args)
-                )
-
         _cookie_info = _context.new_cookie(
             name=_context.cookie_handler.name["session"],
             sid=session_id,
@@ -939,7 +944,8 @@ class Authorization(Endpoint):
             resp_info["response_args"]["iss"] = _context.issuer
             resp_info["response_args"]["client_id"] = request["client_id"]
 
-        return resp_info
+        # Now that all response arguments are there, place them
+        return self.use_response_mode(request, resp_info)
 
     def do_request_user(self, request_info, **kwargs):
         return kwargs
@@ -986,8 +992,15 @@ class Authorization(Endpoint):
         if "error" in info:
             if "response_mode" in request:
                 _return_uri = info.pop("return_uri")
-                info.pop("return_type", None)
-                return self.response_mode(request, info, return_uri=_return_uri)
+                _return_type = info.pop("return_type", None)
+                try:
+                    return self.response_mode(request, info, return_uri=_return_uri)
+                except InvalidRequest:  # no such response_mode
+                    return {
+                        "response_args": info,
+                        "return_uri": _return_uri,
+                        "return_type": _return_type,
+                    }
             else:
                 return info
 
-- 
2.43.0


From 59421d195c8c28b6371c4bce4223a3a33ea9d4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:44 +0000
Subject: [PATCH 21/93] fix: HS signed ID Tokens and user info use the client's
 secret

---
 src/oidcop/oidc/userinfo.py  | 4 +++-
 src/oidcop/token/id_token.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/oidcop/oidc/userinfo.py b/src/oidcop/oidc/userinfo.py
index 34a8484..6a26dd4 100755
--- a/src/oidcop/oidc/userinfo.py
+++ b/src/oidcop/oidc/userinfo.py
@@ -94,7 +94,9 @@ class UserInfo(Endpoint):
                 enc_alg=enc_alg,
             )
 
-            resp = _jwt.pack(response_args, recv=client_id)
+            # HMAC based algorithms use the secret shared with the client
+            _owner = client_id if sign_alg.startswith("HS") else ""
+            resp = _jwt.pack(response_args, issuer_id=_owner, recv=client_id)
             content_type = "application/jwt"
         else:
             if isinstance(response_args, dict):
diff --git a/src/oidcop/token/id_token.py b/src/oidcop/token/id_token.py
index e8555ef..decc8cb 100755
--- a/src/oidcop/token/id_token.py
+++ b/src/oidcop/token/id_token.py
@@ -257,7 +257,9 @@ class IDToken(Token):
 
         _jwt = JWT(_context.keyjar, iss=_context.issuer, lifetime=lifetime, **alg_dict)
 
-        return _jwt.pack(_payload, recv=client_id)
+        # HMAC based algorithms use the secret shared with the client
+        _owner = client_id if alg_dict["sign_alg"].startswith("HS") else ""
+        return _jwt.pack(_payload, issuer_id=_owner, recv=client_id)
 
     def __call__(
         self,
-- 
2.43.0


From 32387e1faa39943eeacd4d09e798872f224d18d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:44 +0000
Subject: [PATCH 22/93] fix: ID Tokens are encrypted when the client has
 registered that

---
 src/oidcop/token/id_token.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/oidcop/token/id_token.py b/src/oidcop/token/id_token.py
index decc8cb..cc4db00 100755
--- a/src/oidcop/token/id_token.py
+++ b/src/oidcop/token/id_token.py
@@ -286,6 +286,10 @@ class IDToken(Token):
 
         lifetime = self.lifetime
 
+        # Should be encrypted if the client has registered that it wants it to be
+        if _context.cdb[client_id].get("id_token_encrypted_response_alg"):
+            encrypt = True
+
         id_token = self.sign_encrypt(
             session_id,
             client_id,
-- 
2.43.0


From 5729e77dbe67408b8649a3242b730325a34a160e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:44 +0000
Subject: [PATCH 23/93] fix: user data can not pretend to be session data in an
 ID Token

---
 src/oidcop/token/id_token.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/token/id_token.py b/src/oidcop/token/id_token.py
index cc4db00..d8e0bac 100755
--- a/src/oidcop/token/id_token.py
+++ b/src/oidcop/token/id_token.py
@@ -181,7 +181,19 @@ class IDToken(Token):
                 pass
 
             # Make sure that there are no name clashes
-            for key in ["iss", "sub", "aud", "exp", "acr", "nonce", "auth_time"]:
+            for key in [
+                "iss",
+                "sub",
+                "aud",
+                "exp",
+                "iat",
+                "acr",
+                "nonce",
+                "auth_time",
+                "sid",
+                "c_hash",
+                "at_hash",
+            ]:
                 try:
                     del user_info[key]
                 except KeyError:
-- 
2.43.0


From 3080aa300963c4ccdb9b1015d22d4619422a36f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:10 +0000
Subject: [PATCH 24/93] fix: the registered subject_type and sector identifier
 of a client are honoured

---
 src/oidcop/oauth2/authorization.py | 30 ++++++++++++++++++++++++++++++
 src/oidcop/session/manager.py      |  8 +++++++-
 2 files changed, 37 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index e5eb4dd..b39c2b8 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -5,6 +5,7 @@ from typing import List
 from typing import Optional
 from typing import Union
 from urllib.parse import urlencode
+from urllib.parse import urlsplit
 
 from cryptojwt import BadSyntax
 from cryptojwt import as_unicode
@@ -83,6 +84,23 @@ def inputs(form_args):
     return "\n".join(element)
 
 
+def sector_identifier(client_id, client_info):
+    """
+    The host component of the sector_identifier_uri if there is one, otherwise of the
+    redirect URIs. If the redirect URIs have different hosts the client is its own sector.
+    """
+    _uri = client_info.get("sector_id") or client_info.get("sector_identifier_uri")
+    if _uri:
+        _uris = [_uri]
+    else:
+        _uris = [u if isinstance(u, str) else u[0] for u in client_info.get("redirect_uris", [])]
+
+    _hosts = {urlsplit(u).hostname for u in _uris}
+    if len(_hosts) == 1:
+        return _hosts.pop() or client_id
+    return client_id
+
+
 def max_age(request):
     verified_request = verified_claim_name("request")
     return request.get(verified_request, {}).get("max_age") or request.get("max_age", 0)
@@ -463,6 +481,16 @@ class Authorization(Endpoint):
                 "return_type": request["response_type"],
             }
 
+    def subject_arguments(self, client_id):
+        """
+        How the client has registered that it wants its users to be identified
+        """
+        _cinfo = self.server_get("endpoint_context").cdb.get(client_id, {})
+        return {
+            "sub_type": _cinfo.get("subject_type") or "public",
+            "sector_identifier": sector_identifier(client_id, _cinfo),
+        }
+
     def create_session(self, request, user_id, acr, time_stamp, authn_method):
         _context = self.server_get("endpoint_context")
         _mngr = _context.session_manager
@@ -482,6 +510,7 @@ class Authorization(Endpoint):
             user_id=user_id,
             client_id=request["client_id"],
             token_usage_rules=_token_usage_rules,
+            **self.subject_arguments(request["client_id"]),
         )
 
     def _login_required_error(self, redirect_uri, request):
@@ -626,6 +655,7 @@ class Authorization(Endpoint):
                             user_id=user,
                             client_id=request["client_id"],
                             token_usage_rules=_context.authz.usage_rules(request["client_id"]),
+                            **self.subject_arguments(request["client_id"]),
                         )
 
         if _session_id:
diff --git a/src/oidcop/session/manager.py b/src/oidcop/session/manager.py
index 3bddebc..af07179 100644
--- a/src/oidcop/session/manager.py
+++ b/src/oidcop/session/manager.py
@@ -167,6 +167,7 @@ class SessionManager(Database):
         sub_type: Optional[str] = "public",
         token_usage_rules: Optional[dict] = None,
         scopes: Optional[list] = None,
+        sector_identifier: Optional[str] = None,
     ) -> str:
         """
 
@@ -177,9 +178,11 @@ class SessionManager(Database):
         :param client_id:
         :param sub_type:
         :param token_usage_rules:
+        :param sector_identifier: Used when constructing a pairwise subject identifier
         :return:
         """
-        sector_identifier = auth_req.get("sector_identifier_uri", "")
+        if sector_identifier is None:
+            sector_identifier = auth_req.get("sector_identifier_uri", "")
 
         _claims = auth_req.get("claims", {})
 
@@ -207,6 +210,7 @@ class SessionManager(Database):
         sub_type: Optional[str] = "public",
         token_usage_rules: Optional[dict] = None,
         scopes: Optional[list] = None,
+        sector_identifier: Optional[str] = None,
     ) -> str:
         """
         Create part of a user session. The parts added are user- and client
@@ -219,6 +223,7 @@ class SessionManager(Database):
         :param user_id: User ID
         :param sub_type: What kind of subject will be assigned
         :param token_usage_rules: Rules for how tokens can be used
+        :param sector_identifier: Used when constructing a pairwise subject identifier
         :return: Session key
         """
 
@@ -245,6 +250,7 @@ class SessionManager(Database):
             sub_type=sub_type,
             token_usage_rules=token_usage_rules,
             scopes=scopes,
+            sector_identifier=sector_identifier,
         )
 
     def __getitem__(self, session_id: str):
-- 
2.43.0


From 804c10b8508bed2f2ab4b04948f460c5f07a96e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:34 +0000
Subject: [PATCH 25/93] fix: user and client identifiers that contain the
 divider do not collide in the session store

---
 src/oidcop/session/database.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/oidcop/session/database.py b/src/oidcop/session/database.py
index 8f4e79e..825ce0c 100644
--- a/src/oidcop/session/database.py
+++ b/src/oidcop/session/database.py
@@ -82,17 +82,18 @@ class Database(ImpExp):
                 cid_info.add_subordinate(grant_id)
                 self.db[cid_key] = cid_info
 
-        userinfo = self.db.get(uid, UserSessionInfo())
+        uid_key = self.session_key(uid)
+        userinfo = self.db.get(uid_key, UserSessionInfo())
         if client_id is None:
-            self.db[uid] = value
+            self.db[uid_key] = value
         if client_id and client_id not in userinfo.subordinate:
             userinfo.add_subordinate(client_id)
-            self.db[uid] = userinfo
+            self.db[uid_key] = userinfo
 
     def get(self, path: List[str]) -> Union[SessionInfo, Grant]:
         uid, client_id, grant_id = self._eval_path(path)
         try:
-            user_info = self.db[uid]
+            user_info = self.db[self.session_key(uid)]
         except KeyError:
             raise KeyError("No such UserID")
         except TypeError:
@@ -173,10 +174,11 @@ class Database(ImpExp):
         self.set(path, _info)
 
     def session_key(self, *args):
-        return DIVIDER.join(args)
+        # No part may contain the divider
+        return DIVIDER.join([a.replace("%", "%25").replace(";", "%3B") for a in args])
 
     def unpack_session_key(self, key):
-        return key.split(DIVIDER)
+        return [a.replace("%3B", ";").replace("%25", "%") for a in key.split(DIVIDER)]
 
     def encrypted_session_id(self, *args) -> str:
         rnd = rndstr(32)
-- 
2.43.0


From 48ac897d557a5816069bab1671c6b53d815a2b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:34 +0000
Subject: [PATCH 26/93] fix: deleting from the session store removes exactly
 what the path points to and all below it

---
 src/oidcop/session/database.py | 60 ++++++++++++++++------------------
 1 file changed, 29 insertions(+), 31 deletions(-)

diff --git a/src/oidcop/session/database.py b/src/oidcop/session/database.py
index 825ce0c..8d41f70 100644
--- a/src/oidcop/session/database.py
+++ b/src/oidcop/session/database.py
@@ -127,45 +127,43 @@ class Database(ImpExp):
                 raise NoSuchGrant(grant_id)
 
     def delete(self, path: List[str]):
+        """
+        Removes what the path points to and everything below it. A client session without
+        grants and a user without client sessions are not kept.
+        """
         uid, client_id, grant_id = self._eval_path(path)
 
-        if uid not in self.db:
+        uid_key = self.session_key(uid)
+        _user_info = self.db.get(uid_key)
+        if _user_info is None:
             return
-        elif not client_id:
-            self.db.__delitem__(uid)
+
+        if client_id and client_id not in _user_info.subordinate:
             return
 
-        _user_info = self.db[uid]
-        skey_uid_client = self.session_key(uid, client_id)
-        skey_uid_client_grant = self.session_key(uid, client_id, grant_id or "")
+        for _cid in [client_id] if client_id else list(_user_info.subordinate):
+            cid_key = self.session_key(uid, _cid)
+            _client_info = self.db.get(cid_key)
+            if _client_info is not None:
+                for _gid in [grant_id] if grant_id else list(_client_info.subordinate):
+                    if _gid in _client_info.subordinate:
+                        _client_info.subordinate.remove(_gid)
+                    gid_key = self.session_key(uid, _cid, _gid)
+                    if gid_key in self.db:
+                        self.db.__delitem__(gid_key)
 
-        if client_id not in _user_info.subordinate:
-            self.db.__delitem__(client_id)
-            return
+                if _client_info.subordinate:
+                    self.db[cid_key] = _client_info
+                    continue
+
+                self.db.__delitem__(cid_key)
+
+            _user_info.subordinate.remove(_cid)
 
-        elif skey_uid_client in self.db:
-            _client_info = self.db[skey_uid_client]
-            if grant_id:
-                if skey_uid_client_grant in self.db:
-                    self.db.__delitem__(skey_uid_client_grant)
-                if grant_id in _client_info.subordinate:
-                    _client_info.subordinate.remove(grant_id)
-            else:
-                for grant_id in _client_info.subordinate:
-                    if skey_uid_client_grant in self.db:
-                        self.db.__delitem__(skey_uid_client_grant)
-                _client_info.subordinate = []
-
-            if len(_client_info.subordinate) == 0:
-                self.db.__delitem__(skey_uid_client)
-                _user_info.subordinate.remove(client_id)
-            else:
-                self.db[client_id] = _client_info
-
-        if len(_user_info.subordinate) == 0:
-            self.db.__delitem__(uid)
+        if _user_info.subordinate:
+            self.db[uid_key] = _user_info
         else:
-            self.db[uid] = _user_info
+            self.db.__delitem__(uid_key)
 
     def update(self, path: List[str], new_info: dict):
         _info = self.get(path)
-- 
2.43.0


From c013120710f6874a3b3cc573283e2b6725d51928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:34 +0000
Subject: [PATCH 27/93] fix: minted tokens do not leave stray entries in the
 session store

---
 src/oidcop/oauth2/authorization.py | 2 +-
 src/oidcop/oauth2/token.py         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index b39c2b8..eb1c0fd 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -343,7 +343,7 @@ class Authorization(Endpoint):
         )
 
         _mngr = self.server_get("endpoint_context").session_manager
-        _mngr.set(_mngr.unpack_session_key(session_id), grant)
+        _mngr.set(_mngr.decrypt_session_id(session_id), grant)
 
         return token
 
diff --git a/src/oidcop/oauth2/token.py b/src/oidcop/oauth2/token.py
index 47657a4..464cdfe 100755
--- a/src/oidcop/oauth2/token.py
+++ b/src/oidcop/oauth2/token.py
@@ -80,7 +80,7 @@ class TokenEndpointHelper(object):
             **_args,
         )
 
-        _context.session_manager.set(_context.session_manager.unpack_session_key(session_id), grant)
+        _context.session_manager.set(_context.session_manager.decrypt_session_id(session_id), grant)
 
         return token
 
-- 
2.43.0


From adfe8138263a74277037f8c4fdf0bada7e747d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:34 +0000
Subject: [PATCH 28/93] fix: an added grant is listed once

---
 src/oidcop/session/manager.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/oidcop/session/manager.py b/src/oidcop/session/manager.py
index af07179..0cc787c 100644
--- a/src/oidcop/session/manager.py
+++ b/src/oidcop/session/manager.py
@@ -528,9 +528,6 @@ class SessionManager(Database):
         args = {k: v for k, v in kwargs.items() if k in Grant.parameter}
         _grant = Grant(**args)
         self.set([user_id, client_id, _grant.id], _grant)
-        _client_session_info = self.get([user_id, client_id])
-        _client_session_info.subordinate.append(_grant.id)
-        self.set([user_id, client_id], _client_session_info)
         return _grant
 
     def remove_session(self, session_id: str):
-- 
2.43.0


From 95adcca4418543b149fb1afa1941da358f927ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:34 +0000
Subject: [PATCH 29/93] fix: packed and encrypted values keep their leading and
 trailing blanks

---
 src/oidcop/util.py | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/oidcop/util.py b/src/oidcop/util.py
index 420527c..b8cde36 100755
--- a/src/oidcop/util.py
+++ b/src/oidcop/util.py
@@ -131,9 +131,8 @@ def lv_unpack(txt):
     :param txt: The input string
     :return: a list og values
     """
-    txt = txt.strip()
     res = []
-    while txt:
+    while txt.strip():  # there may be padding at the end
         l, v = txt.split(":", 1)
         res.append(v[: int(l)])
         txt = v[int(l):]
@@ -146,16 +145,10 @@ class Crypt(object):
         self.core = Fernet(self.key)
 
     def encrypt(self, text):
-        # Padding to block size of AES
-        text = as_bytes(text)
-        if len(text) % 16:
-            text += b" " * (16 - len(text) % 16)
         return self.core.encrypt(as_bytes(text))
 
     def decrypt(self, ciphertext):
-        dec_text = self.core.decrypt(ciphertext)
-        dec_text = dec_text.rstrip(b" ")
-        return as_unicode(dec_text)
+        return as_unicode(self.core.decrypt(ciphertext))
 
 
 def get_http_params(config):
-- 
2.43.0


From fd07f2c1035558db29ac0149453c0d746261e514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:53 +0000
Subject: [PATCH 30/93] fix: a claims request without an acr value broke the
 choice of authentication method

---
 src/oidcop/user_authn/authn_context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcop/user_authn/authn_context.py b/src/oidcop/user_authn/authn_context.py
index 8aa94df..ab5184a 100755
--- a/src/oidcop/user_authn/authn_context.py
+++ b/src/oidcop/user_authn/authn_context.py
@@ -113,7 +113,7 @@ def _acr_claim(request):
     if _claims:
         _id_token_claim = _claims.get("id_token")
         if _id_token_claim:
-            _acr = _id_token_claim.get("acr")
+            _acr = _id_token_claim.get("acr") or {}
             if "value" in _acr:
                 return [_acr["value"]]
             elif "values" in _acr:
-- 
2.43.0


From 7c439d14a26443aeb3dd23fb43caa98f4d2c0ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:53 +0000
Subject: [PATCH 31/93] fix: an authorization request for an unsupported acr is
 answered with an error

---
 src/oidcop/oauth2/authorization.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index eb1c0fd..a1da186 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -560,6 +560,10 @@ class Authorization(Endpoint):
         """
 
         res = self.pick_authn_method(request, redirect_uri, acr, **kwargs)
+        if "error" in res:
+            if request.get("state"):
+                res["state"] = request["state"]
+            return res
 
         authn = res["method"]
         authn_class_ref = res["acr"]
-- 
2.43.0


From 23950a3d0b58e52c5505d533e07d1199f0120136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:53 +0000
Subject: [PATCH 32/93] fix: a cookie for a session that does not exist is no
 authentication, not an exception

---
 src/oidcop/oauth2/authorization.py |  3 +++
 src/oidcop/user_authn/user.py      | 10 +++++++---
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index a1da186..9270cc7 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -601,6 +601,9 @@ class Authorization(Endpoint):
                     except Revoked:
                         logger.debug("Authentication session revoked!!")
                         identity = None
+                    except (KeyError, ValueError):
+                        logger.debug("Authentication session doesn't exist anymore")
+                        identity = None
                     else:
                         logger.debug(f"Session info type: {_csi.__class__.__name__}")
                         if _csi.is_active() is False:
diff --git a/src/oidcop/user_authn/user.py b/src/oidcop/user_authn/user.py
index 9e54e3a..0a68f78 100755
--- a/src/oidcop/user_authn/user.py
+++ b/src/oidcop/user_authn/user.py
@@ -107,9 +107,13 @@ class UserAuthnMethod(object):
             pass
         else:
             for val in cookie:
-                _info = json.loads(val["value"])
-                _info["timestamp"] = int(val["timestamp"])
-                session_id = _context.session_manager.decrypt_session_id(_info["sid"])
+                try:
+                    _info = json.loads(val["value"])
+                    _info["timestamp"] = int(val["timestamp"])
+                    session_id = _context.session_manager.decrypt_session_id(_info["sid"])
+                except (KeyError, TypeError, ValueError) as err:
+                    logger.debug(f"Not a cookie that identifies a session: {err}")
+                    continue
                 logger.debug("cookie_info: session id={}".format(session_id))
                 # _, cid, _ = _context.session_manager.decrypt_session_id(_info["sid"])
                 if session_id[1] != client_id:
-- 
2.43.0


From 55d7c01c460facd72e335eff4135df7689cc2aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:08 +0000
Subject: [PATCH 33/93] fix: prompt=none never leads to a login

---
 src/oidcop/oauth2/authorization.py | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index 9270cc7..daf0b29 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -525,6 +525,12 @@ class Authorization(Endpoint):
         logger.debug("Login required error: {}".format(_res))
         return _res
 
+    def _need_login(self, redirect_uri, request, authn, authn_args):
+        if "prompt" in request and "none" in request["prompt"]:
+            # Need to authenticate but not allowed
+            return self._login_required_error(redirect_uri, request)
+        return {"function": authn, "args": authn_args}
+
     def _unwrap_identity(self, identity):
         if isinstance(identity, dict):
             try:
@@ -618,26 +624,19 @@ class Authorization(Endpoint):
             logger.info("No active authentication")
             logger.debug("Known clients: {}".format(list(_context.cdb.keys())))
 
-            if "prompt" in request and "none" in request["prompt"]:
-                # Need to authenticate but not allowed
-                return self._login_required_error(redirect_uri, request)
-            else:
-                return {"function": authn, "args": authn_args}
+            return self._need_login(redirect_uri, request, authn, authn_args)
         else:
             logger.info(f"Active authentication: {identity}")
             if re_authenticate(request, authn):
                 # demand re-authentication
-                return {"function": authn, "args": authn_args}
+                return self._need_login(redirect_uri, request, authn, authn_args)
             else:
                 # I got back a dictionary
                 user = identity["uid"]
                 if "req_user" in kwargs:
                     if user != kwargs["req_user"]:
                         logger.debug("Wanted to be someone else!")
-                        if "prompt" in request and "none" in request["prompt"]:
-                            return self._login_required_error(redirect_uri, request)
-                        else:
-                            return {"function": authn, "args": authn_args}
+                        return self._need_login(redirect_uri, request, authn, authn_args)
 
                 if "sid" in identity:
                     _session_id = identity["sid"]
@@ -645,15 +644,15 @@ class Authorization(Endpoint):
                     # make sure the client is the same
                     _uid, _cid, _gid = _mngr.decrypt_session_id(_session_id)
                     if request["client_id"] != _cid:
-                        return {"function": authn, "args": authn_args}
+                        return self._need_login(redirect_uri, request, authn, authn_args)
 
                     grant = _mngr[_session_id]
                     if grant.is_active() is False:
-                        return {"function": authn, "args": authn_args}
+                        return self._need_login(redirect_uri, request, authn, authn_args)
                     elif request != grant.authorization_request:
                         authn_event = _mngr.get_authentication_event(session_id=_session_id)
                         if authn_event.is_valid() is False:  # if not valid, do new login
-                            return {"function": authn, "args": authn_args}
+                            return self._need_login(redirect_uri, request, authn, authn_args)
 
                         # create new grant
                         _session_id = _mngr.create_grant(
@@ -668,7 +667,7 @@ class Authorization(Endpoint):
         if _session_id:
             authn_event = _mngr.get_authentication_event(session_id=_session_id)
             if authn_event.is_valid() is False:  # if not valid, do new login
-                return {"function": authn, "args": authn_args}
+                return self._need_login(redirect_uri, request, authn, authn_args)
         else:
             _session_id = self.create_session(request, identity["uid"], authn_class_ref, _ts, authn)
 
-- 
2.43.0


From c93859fc6306747262c2767ac28a52fca30cc2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:27 +0000
Subject: [PATCH 34/93] fix: max_age is about when the user authenticated, and
 may be 0

---
 src/oidcop/oauth2/authorization.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index daf0b29..d4986e6 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -106,6 +106,18 @@ def max_age(request):
     return request.get(verified_request, {}).get("max_age") or request.get("max_age", 0)
 
 
+def too_old(request, authn_event):
+    """
+    Is this authentication older than the request allows? What counts is when the user
+    authenticated, not when that was last made use of.
+    """
+    for _req in [request.get(verified_claim_name("request"), {}), request]:
+        _max_age = _req.get("max_age")
+        if _max_age is not None:
+            return utc_time_sans_frac() > authn_event["authn_time"] + int(_max_age)
+    return False
+
+
 def verify_uri(
     endpoint_context: EndpointContext,
     request: Union[dict, Message],
@@ -649,7 +661,12 @@ class Authorization(Endpoint):
                     grant = _mngr[_session_id]
                     if grant.is_active() is False:
                         return self._need_login(redirect_uri, request, authn, authn_args)
-                    elif request != grant.authorization_request:
+
+                    if too_old(request, grant.authentication_event):
+                        logger.info("Too old authentication")
+                        return self._need_login(redirect_uri, request, authn, authn_args)
+
+                    if request != grant.authorization_request:
                         authn_event = _mngr.get_authentication_event(session_id=_session_id)
                         if authn_event.is_valid() is False:  # if not valid, do new login
                             return self._need_login(redirect_uri, request, authn, authn_args)
-- 
2.43.0


From 2381b4a9e9567efe221d5e448c00a3bed4ddb380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:46 +0000
Subject: [PATCH 35/93] fix: an id_token_hint for another user is noticed

---
 src/oidcop/oidc/authorization.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/oidcop/oidc/authorization.py b/src/oidcop/oidc/authorization.py
index fb4d73e..128b197 100755
--- a/src/oidcop/oidc/authorization.py
+++ b/src/oidcop/oidc/authorization.py
@@ -11,11 +11,21 @@ from oidcop.oauth2 import authorization
 logger = logging.getLogger(__name__)
 
 
-def proposed_user(request):
-    cn = verified_claim_name("it_token_hint")
-    if request.get(cn):
-        return request[cn].get("sub", "")
-    return ""
+def proposed_user(request, session_manager=None):
+    """
+    The user an ID Token hint is about. A sub is not a user identifier, the session the ID Token
+    was issued in is what tells which user it is.
+    """
+    _hint = request.get(verified_claim_name("id_token_hint"))
+    if not _hint:
+        return ""
+
+    if session_manager and _hint.get("sid"):
+        try:
+            return session_manager.decrypt_session_id(_hint["sid"])[0]
+        except ValueError:
+            logger.debug("ID Token hint from another server")
+    return _hint.get("sub", "")
 
 
 def acr_claims(request):
@@ -103,8 +113,9 @@ class Authorization(authorization.Authorization):
         self.post_parse_request.append(self._post_parse_request)
 
     def do_request_user(self, request_info, **kwargs):
-        if proposed_user(request_info):
-            kwargs["req_user"] = proposed_user(request_info)
+        _user = proposed_user(request_info, self.server_get("endpoint_context").session_manager)
+        if _user:
+            kwargs["req_user"] = _user
         else:
             _login_hint = request_info.get("login_hint")
             if _login_hint:
-- 
2.43.0


From 168bba10379b865278f94b253bd698944643f57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:05 +0000
Subject: [PATCH 36/93] fix: a login page token has to be made by this server

---
 src/oidcop/user_authn/user.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/user_authn/user.py b/src/oidcop/user_authn/user.py
index 0a68f78..e3a25b2 100755
--- a/src/oidcop/user_authn/user.py
+++ b/src/oidcop/user_authn/user.py
@@ -84,7 +84,12 @@ class UserAuthnMethod(object):
         raise NotImplementedError
 
     def unpack_token(self, token):
-        return verify_signed_jwt(token=token, keyjar=self.server_get("endpoint_context").keyjar)
+        _context = self.server_get("endpoint_context")
+        _info = verify_signed_jwt(token=token, keyjar=_context.keyjar)
+        # The keyjar contains the keys of the clients too
+        if _info.get("iss") != _context.issuer:
+            raise FailedAuthentication("Not a token from this server")
+        return _info
 
     def done(self, areq):
         """
-- 
2.43.0


From 55cb06003e7b5eb4ca3906313f1e91ed14ea58dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:36 +0000
Subject: [PATCH 37/93] fix: max_age in a request is a string of digits

---
 src/oidcop/oauth2/authorization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index d4986e6..522ab2f 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -103,7 +103,7 @@ def sector_identifier(client_id, client_info):
 
 def max_age(request):
     verified_request = verified_claim_name("request")
-    return request.get(verified_request, {}).get("max_age") or request.get("max_age", 0)
+    return int(request.get(verified_request, {}).get("max_age") or request.get("max_age") or 0)
 
 
 def too_old(request, authn_event):
-- 
2.43.0


From b7d5b89d06153476d13a9cefb559a7632ab62a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:05 +0000
Subject: [PATCH 38/93] fix: find the verified id_token_hint of an
 authorization request

---
 src/oidcop/oidc/authorization.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/oidc/authorization.py b/src/oidcop/oidc/authorization.py
index 128b197..b5c0da5 100755
--- a/src/oidcop/oidc/authorization.py
+++ b/src/oidcop/oidc/authorization.py
@@ -16,7 +16,13 @@ def proposed_user(request, session_manager=None):
     The user an ID Token hint is about. A sub is not a user identifier, the session the ID Token
     was issued in is what tells which user it is.
     """
-    _hint = request.get(verified_claim_name("id_token_hint"))
+    if "id_token_hint" not in request:
+        return ""
+
+    # oidcmsg uses different names in different requests
+    _hint = request.get(verified_claim_name("id_token_hint")) or request.get(
+        "verified_id_token_hint"
+    )
     if not _hint:
         return ""
 
-- 
2.43.0


From 1b39685bb7e2e89b399536d49a87429f4834b35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:51 +0000
Subject: [PATCH 39/93] fix: a cookie key file with only one of the two keys

---
 src/oidcop/cookie_handler.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/oidcop/cookie_handler.py b/src/oidcop/cookie_handler.py
index cb8130e..335fe33 100755
--- a/src/oidcop/cookie_handler.py
+++ b/src/oidcop/cookie_handler.py
@@ -41,6 +41,9 @@ class CookieHandler:
             **kwargs,
     ):
 
+        self.sign_key = None
+        self.enc_key = None
+
         if keys:
             key_jar = init_key_jar(**keys)
             _keys = key_jar.get_signing_key(key_type="oct", kid="sig")
@@ -55,16 +58,12 @@ class CookieHandler:
                     self.sign_key = sign_key
                 else:
                     self.sign_key = SYMKey(k=sign_key)
-            else:
-                self.sign_key = None
 
             if enc_key:
                 if isinstance(enc_key, SYMKey):
                     self.enc_key = enc_key
                 else:
                     self.enc_key = SYMKey(k=enc_key)
-            else:
-                self.enc_key = None
 
         self.sign_alg = sign_alg
 
-- 
2.43.0


From 81e24306676a9006f62d9a34ee1c98879c3edf44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:51 +0000
Subject: [PATCH 40/93] fix: cookie values containing :: or | could not be read
 back

---
 src/oidcop/cookie_handler.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/oidcop/cookie_handler.py b/src/oidcop/cookie_handler.py
index 335fe33..fd7ef24 100755
--- a/src/oidcop/cookie_handler.py
+++ b/src/oidcop/cookie_handler.py
@@ -137,6 +137,17 @@ class CookieHandler:
 
         return (b"|".join(cookie_payload)).decode("utf-8")
 
+    def _split_value(self, value: str) -> List[str]:
+        """
+        The parts of a cookie value. A payload that is not encrypted may contain anything.
+        """
+        if self.enc_key:
+            return value.split("|")
+
+        timestamp, _, rest = value.partition("|")
+        payload, _, mac = rest.rpartition("|")
+        return [timestamp, payload, mac]
+
     def _ver_dec_content(self, parts):
         """
         Verifies the value of a cookie
@@ -257,10 +268,10 @@ class CookieHandler:
         for _cookie in cookies:
             LOGGER.debug("Cookie: {}".format(_cookie))
             if "name" in _cookie and _cookie["name"] == name:
-                _content = self._ver_dec_content(_cookie["value"].split("|"))
+                _content = self._ver_dec_content(self._split_value(_cookie["value"]))
                 if _content:
-                    payload, timestamp = self._ver_dec_content(_cookie["value"].split("|"))
-                    value, typ = payload.split("::")
+                    payload, timestamp = _content
+                    value, typ = payload.rsplit("::", 1)
                     res.append({"value": value, "type": typ, "timestamp": timestamp})
                 else:
                     LOGGER.debug(f"Could not verify {name} cookie")
-- 
2.43.0


From b3f7d1bd58c78a51b49f5b68f87f0a35afdd3926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:14 +0000
Subject: [PATCH 41/93] fix: the MAC of a cookie tells payload and timestamp
 apart

---
 src/oidcop/cookie_handler.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/oidcop/cookie_handler.py b/src/oidcop/cookie_handler.py
index fd7ef24..9bb18a8 100755
--- a/src/oidcop/cookie_handler.py
+++ b/src/oidcop/cookie_handler.py
@@ -87,6 +87,11 @@ class CookieHandler:
             },
         )
 
+    @staticmethod
+    def _mac_input(payload: str, timestamp: str) -> bytes:
+        """What is signed has to tell where the payload ends and the timestamp starts"""
+        return lv_pack(payload, timestamp).encode("utf-8")
+
     def _sign_enc_payload(self, payload: str, timestamp: Optional[Union[int, str]] = 0):
         """
         Creates signed and/or encrypted information.
@@ -108,7 +113,7 @@ class CookieHandler:
 
         if self.sign_key:
             signer = HMACSigner(algorithm=self.sign_alg)
-            mac = signer.sign(bytes_load + bytes_timestamp, self.sign_key.key)
+            mac = signer.sign(self._mac_input(payload, timestamp), self.sign_key.key)
         else:
             mac = b""
 
@@ -164,7 +169,7 @@ class CookieHandler:
             mac = base64.b64decode(b64_mac)
             verifier = HMACSigner(algorithm=self.sign_alg)
             if verifier.verify(
-                    payload.encode("utf-8") + timestamp.encode("utf-8"),
+                    self._mac_input(payload, timestamp),
                     mac,
                     self.sign_key.key,
             ):
@@ -189,7 +194,7 @@ class CookieHandler:
             if len(p) == 3:
                 verifier = HMACSigner(algorithm=self.sign_alg)
                 if verifier.verify(
-                        payload.encode("utf-8") + timestamp.encode("utf-8"),
+                        self._mac_input(payload, timestamp),
                         base64.b64decode(p[2]),
                         self.sign_key.key,
                 ):
-- 
2.43.0


From 0475434e62ed720dd9f0ae60846e3b3956736cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:21 +0000
Subject: [PATCH 42/93] fix: a cookie that can not be verified is as good as
 absent

---
 src/oidcop/cookie_handler.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/oidcop/cookie_handler.py b/src/oidcop/cookie_handler.py
index 9bb18a8..03dd346 100755
--- a/src/oidcop/cookie_handler.py
+++ b/src/oidcop/cookie_handler.py
@@ -163,7 +163,7 @@ class CookieHandler:
 
         if parts is None:
             return None
-        elif len(parts) == 3:
+        elif len(parts) == 3 and self.sign_key:
             # verify the cookie signature
             timestamp, payload, b64_mac = parts
             mac = base64.b64decode(b64_mac)
@@ -176,7 +176,7 @@ class CookieHandler:
                 return payload, timestamp
             else:
                 raise VerificationError()
-        elif len(parts) == 4:
+        elif len(parts) == 4 and self.enc_key:
             iv = base64.b64decode(parts[1])
             ciphertext = base64.b64decode(parts[2])
             tag = base64.b64decode(parts[3])
@@ -262,8 +262,8 @@ class CookieHandler:
         fails. See `make_cookie` for details about the verification.
 
         :param kakor: A list of dictionaries with cookie information
-        :raises InvalidCookieSign: When verification fails.
-        :return: A list of dictionaries with information from the cookie or None if parsing fails
+        :return: A list of dictionaries with information from the cookies that could be verified,
+            a cookie that could not be verified is as good as absent. None if there are no cookies.
         """
         if not cookies:
             return None
@@ -273,7 +273,11 @@ class CookieHandler:
         for _cookie in cookies:
             LOGGER.debug("Cookie: {}".format(_cookie))
             if "name" in _cookie and _cookie["name"] == name:
-                _content = self._ver_dec_content(self._split_value(_cookie["value"]))
+                try:
+                    _content = self._ver_dec_content(self._split_value(_cookie["value"]))
+                except (VerificationError, ValueError) as err:
+                    LOGGER.debug(f"Could not verify {name} cookie: {err}")
+                    continue
                 if _content:
                     payload, timestamp = _content
                     value, typ = payload.rsplit("::", 1)
-- 
2.43.0


From 4c3aeeb2421b07f3a5194ffbb289bfc98ed0b12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:50 +0000
Subject: [PATCH 43/93] fix: init_service must not add to the configuration it
 is given

---
 src/oidcop/endpoint_context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcop/endpoint_context.py b/src/oidcop/endpoint_context.py
index fd13539..9e1f639 100755
--- a/src/oidcop/endpoint_context.py
+++ b/src/oidcop/endpoint_context.py
@@ -46,7 +46,7 @@ def init_user_info(conf, cwd: str):
 
 
 def init_service(conf, server_get=None):
-    kwargs = conf.get("kwargs", {})
+    kwargs = dict(conf.get("kwargs", {}))
 
     if server_get:
         kwargs["server_get"] = server_get
-- 
2.43.0


From 7f4b292b32f02bce40504e8f69188149b1464b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:50 +0000
Subject: [PATCH 44/93] fix: the PKCE settings in the endpoint context are
 dumpable

---
 src/oidcop/oidc/add_on/pkce.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/oidcop/oidc/add_on/pkce.py b/src/oidcop/oidc/add_on/pkce.py
index 3e7fa05..e3acf41 100644
--- a/src/oidcop/oidc/add_on/pkce.py
+++ b/src/oidcop/oidc/add_on/pkce.py
@@ -139,12 +139,11 @@ def add_pkce_support(endpoint: Dict[str, Endpoint], **kwargs):
     authn_endpoint.post_parse_request.append(post_authn_parse)
     token_endpoint.post_parse_request.append(post_token_parse)
 
-    code_challenge_methods = kwargs.get("code_challenge_methods", CC_METHOD.keys())
-
-    kwargs["code_challenge_methods"] = {}
-    for method in code_challenge_methods:
+    kwargs["code_challenge_methods"] = list(
+        kwargs.get("code_challenge_methods", CC_METHOD.keys())
+    )
+    for method in kwargs["code_challenge_methods"]:
         if method not in CC_METHOD:
             raise ValueError("Unsupported method: {}".format(method))
-        kwargs["code_challenge_methods"][method] = CC_METHOD[method]
 
     authn_endpoint.server_get("endpoint_context").args["pkce"] = kwargs
-- 
2.43.0


From bcb86dd41073f119c74cc4275c89b5b986c49f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:06 +0000
Subject: [PATCH 45/93] fix: a grant keeps its id over dump and load

---
 src/oidcop/session/grant.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/session/grant.py b/src/oidcop/session/grant.py
index b7c5cd9..d730787 100644
--- a/src/oidcop/session/grant.py
+++ b/src/oidcop/session/grant.py
@@ -108,6 +108,7 @@ class Grant(Item):
             "authorization_request": AuthorizationRequest,
             "claims": {},
             "extra": {},
+            "id": "",
             "issued_token": [SessionToken],
             "resources": [],
             "scope": [],
@@ -138,6 +139,7 @@ class Grant(Item):
         token_map: Optional[dict] = None,
         sub: Optional[str] = "",
         extra: Optional[Dict[str, str]] = None,
+        id: Optional[str] = "",
     ):
         Item.__init__(
             self,
@@ -154,7 +156,7 @@ class Grant(Item):
         self.claims = claims or {}  # default is to not release any user information
         self.resources = resources or []
         self.issued_token = issued_token or []
-        self.id = uuid1().hex
+        self.id = id or uuid1().hex
         self.sub = sub
         self.extra = extra or {}
 
-- 
2.43.0


From 50a3850460545659e13f4b9bddd996bce390e836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:06 +0000
Subject: [PATCH 46/93] fix: pushed authorization requests survive dump and
 load

---
 src/oidcop/endpoint_context.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/oidcop/endpoint_context.py b/src/oidcop/endpoint_context.py
index 9e1f639..901696f 100755
--- a/src/oidcop/endpoint_context.py
+++ b/src/oidcop/endpoint_context.py
@@ -10,6 +10,8 @@ from cryptojwt import KeyJar
 from jinja2 import Environment
 from jinja2 import FileSystemLoader
 from oidcmsg.context import OidcContext
+from oidcmsg.item import dump_dldict
+from oidcmsg.item import load_dldict
 
 from oidcop import rndstr
 from oidcop.configure import OPConfiguration
@@ -117,6 +119,7 @@ class EndpointContext(OidcContext):
         "token_args_methods": [],
         # "userinfo": UserInfo,
     }
+    special_load_dump = {"par_db": {"dump": dump_dldict, "load": load_dldict}}
 
     def __init__(
             self,
-- 
2.43.0


From 58d57a906a1b32cb9e99c0f9cb12b10bc4dfc870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:18 +0000
Subject: [PATCH 47/93] fix: loading an endpoint context keeps what comes from
 the configuration

---
 src/oidcop/endpoint_context.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/oidcop/endpoint_context.py b/src/oidcop/endpoint_context.py
index 901696f..3524b7e 100755
--- a/src/oidcop/endpoint_context.py
+++ b/src/oidcop/endpoint_context.py
@@ -99,15 +99,15 @@ class EndpointContext(OidcContext):
         "conf": {},
         # "cookie_handler": None,
         "cwd": "",
-        "endpoint_to_authn_method": {},
+        # "endpoint_to_authn_method": {},
         "httpc_params": {},
         # "idtoken": IDToken,
         "issuer": "",
         "jti_db": {},
         "jwks_uri": "",
         "keyjar": KeyJar,
-        "login_hint_lookup": None,
-        "login_hint2acrs": {},
+        # "login_hint_lookup": None,
+        # "login_hint2acrs": {},
         "par_db": {},
         "provider_info": {},
         "registration_access_token": {},
@@ -243,6 +243,14 @@ class EndpointContext(OidcContext):
         self.dev_auth_db = None
         self.claims_interface = None
 
+    def local_load_adjustments(self, **kwargs):
+        # The session manager is created anew when loading. What it has from the configuration
+        # is not part of what was stored.
+        if self.session_manager:
+            self.session_manager.conf = self.conf
+            self.session_manager.sub_func.update(self._sub_func)
+            self.session_manager.userinfo = self.userinfo
+
     def new_cookie(self, name: str, max_age: Optional[int] = 0, **kwargs):
         cookie_cont = self.cookie_handler.make_cookie_content(
             name=name, value=json.dumps(kwargs), max_age=max_age
-- 
2.43.0


From a7f770c2936df8bc2f6d4d790ac3a3683831aad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:06 +0000
Subject: [PATCH 48/93] fix: init_method must not add to the configuration it
 is given

---
 src/oidcop/user_authn/authn_context.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/oidcop/user_authn/authn_context.py b/src/oidcop/user_authn/authn_context.py
index ab5184a..f6079c9 100755
--- a/src/oidcop/user_authn/authn_context.py
+++ b/src/oidcop/user_authn/authn_context.py
@@ -162,10 +162,7 @@ def pick_auth(endpoint_context, areq, pick_all=False):
 
 
 def init_method(authn_spec, server_get, template_handler=None):
-    try:
-        _args = authn_spec["kwargs"]
-    except KeyError:
-        _args = {}
+    _args = dict(authn_spec.get("kwargs", {}))
 
     if "template" in _args:
         _args["template_handler"] = template_handler
-- 
2.43.0


From 08e05ff2cd47ec5e7b05cad139a2d2e628fec32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:00 +0000
Subject: [PATCH 49/93] fix: stored cookie keys are used again after a restart

---
 src/oidcop/cookie_handler.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/cookie_handler.py b/src/oidcop/cookie_handler.py
index 03dd346..27eab71 100755
--- a/src/oidcop/cookie_handler.py
+++ b/src/oidcop/cookie_handler.py
@@ -45,7 +45,13 @@ class CookieHandler:
         self.enc_key = None
 
         if keys:
-            key_jar = init_key_jar(**keys)
+            # The key type must be spelled the way it is in a JWK, otherwise stored keys are
+            # not recognized but replaced by new ones.
+            _key_defs = [
+                {**spec, "type": "oct"} if spec.get("type", "").lower() == "oct" else spec
+                for spec in keys.get("key_defs") or []
+            ]
+            key_jar = init_key_jar(**{**keys, "key_defs": _key_defs})
             _keys = key_jar.get_signing_key(key_type="oct", kid="sig")
             if _keys:
                 self.sign_key = _keys[0]
-- 
2.43.0


From bbdb26540b8027dbc23b7342fce52fb45a3ecbec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:30 +0000
Subject: [PATCH 50/93] fix: pushed authorization requests are verified, bound
 to their client and expire

A pushed request was stored without the verification an authorization request
goes through, a reference could be used by any client and the announced
expires_in was not enforced.
---
 src/oidcop/oauth2/authorization.py        | 11 ++---
 src/oidcop/oauth2/pushed_authorization.py | 52 ++++++++++++++++++++++-
 2 files changed, 56 insertions(+), 7 deletions(-)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index 522ab2f..ce419f1 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -367,13 +367,14 @@ class Authorization(Endpoint):
             if _endp:
                 # Is it a UUID urn
                 if _request_uri.startswith("urn:uuid:"):
-                    _req = endpoint_context.par_db.get(_request_uri)
-                    if _req:
+                    _pushed = endpoint_context.par_db.get(_request_uri)
+                    # Only for the client that pushed it
+                    if _pushed and _pushed.authorization_request["client_id"] == client_id:
                         # One time usage
                         del endpoint_context.par_db[_request_uri]
-                        return _req
-                    else:
-                        raise ValueError("Got a request_uri I can not resolve")
+                        if _pushed.expires_at > utc_time_sans_frac():
+                            return _pushed.authorization_request
+                    raise ValueError("Got a request_uri I can not resolve")
 
             # Do I support request_uri ?
             if endpoint_context.provider_info.get("request_uri_parameter_supported", True) is False:
diff --git a/src/oidcop/oauth2/pushed_authorization.py b/src/oidcop/oauth2/pushed_authorization.py
index d1f84f8..6473195 100644
--- a/src/oidcop/oauth2/pushed_authorization.py
+++ b/src/oidcop/oauth2/pushed_authorization.py
@@ -1,10 +1,24 @@
 import uuid
 
 from oidcmsg import oauth2
+from oidcmsg.exception import MissingRequiredAttribute
+from oidcmsg.exception import MissingRequiredValue
+from oidcmsg.impexp import ImpExp
+from oidcmsg.oidc import verified_claim_name
+from oidcmsg.time_util import utc_time_sans_frac
 
 from oidcop.oauth2.authorization import Authorization
 
 
+class PushedRequest(ImpExp):
+    parameter = {"authorization_request": oauth2.AuthorizationRequest, "expires_at": 0}
+
+    def __init__(self, authorization_request=None, expires_at=0):
+        ImpExp.__init__(self)
+        self.authorization_request = authorization_request
+        self.expires_at = expires_at
+
+
 class PushedAuthorization(Authorization):
     request_cls = oauth2.PushedAuthorizationRequest
     response_cls = oauth2.Message
@@ -18,9 +32,41 @@ class PushedAuthorization(Authorization):
     def __init__(self, server_get, **kwargs):
         Authorization.__init__(self, server_get, **kwargs)
         # self.pre_construct.append(self._pre_construct)
-        self.post_parse_request.append(self._post_parse_request)
+        self.post_parse_request = [self._authorization_request, self._post_parse_request]
         self.ttl = kwargs.get("ttl", 3600)
 
+    def _authorization_request(self, request, client_id, endpoint_context, **kwargs):
+        """
+        What is pushed must be what the authorization endpoint would accept.
+        """
+        if "request_uri" in request:
+            return self.error_cls(
+                error="invalid_request", error_description="request_uri can not be pushed"
+            )
+        if request.get("client_id") != client_id:  # the request object names someone else
+            return self.error_cls(
+                error="invalid_request", error_description="Not the client that authenticated"
+            )
+
+        _endp = self.server_get("endpoint", "authorization")
+        if _endp is None:
+            return request
+
+        _verified = verified_claim_name("request")
+        # The request object is already verified and merged with the request
+        _req = _endp.request_cls(
+            **{k: v for k, v in request.items() if k not in ["request", _verified]}
+        )
+        try:
+            _req.verify(keyjar=endpoint_context.keyjar, opponent_id=client_id)
+        except (MissingRequiredAttribute, ValueError, MissingRequiredValue) as err:
+            return self.process_verify_error(err)
+
+        for key in ["request", _verified]:
+            if key in request:
+                _req[key] = request[key]
+        return _req
+
     def process_request(self, request=None, **kwargs):
         """
         Store the request and return a URI.
@@ -30,7 +76,9 @@ class PushedAuthorization(Authorization):
         # create URN
 
         _urn = "urn:uuid:{}".format(uuid.uuid4())
-        self.server_get("endpoint_context").par_db[_urn] = request
+        self.server_get("endpoint_context").par_db[_urn] = PushedRequest(
+            authorization_request=request, expires_at=utc_time_sans_frac() + self.ttl
+        )
 
         return {
             "http_response": {"request_uri": _urn, "expires_in": self.ttl},
-- 
2.43.0


From da456093ffd07efa9ce457564d942ca1e8d99a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:33 +0000
Subject: [PATCH 51/93] fix: DPoP proofs are verified before their key is
 trusted

Type, algorithm and required members were never checked, members of the body
could replace those of the header, dpop_jkt could be sent as a request parameter
and a request with headers but no proof was refused.
---
 src/oidcop/oauth2/add_on/dpop.py | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/oidcop/oauth2/add_on/dpop.py b/src/oidcop/oauth2/add_on/dpop.py
index 472c5ea..5cc15cb 100644
--- a/src/oidcop/oauth2/add_on/dpop.py
+++ b/src/oidcop/oauth2/add_on/dpop.py
@@ -71,11 +71,16 @@ class DPoPProof(Message):
                 _pub_key = key_from_jwk_dict(_jwt.headers["jwk"])
                 _pub_key.deserialize()
                 _info = _jws.verify_compact(keys=[_pub_key], sigalg=_jwt.headers["alg"])
+                # The body can not tell what's in the header
+                for k, v in _info.items():
+                    if k not in self.header_params:
+                        self[k] = v
+
                 for k, v in _jwt.headers.items():
-                    self[k] = v
+                    if k not in self.body_params:
+                        self[k] = v
 
-                for k, v in _info.items():
-                    self[k] = v
+                self.key = _pub_key
             else:
                 raise Exception()
 
@@ -96,14 +101,25 @@ def post_parse_request(request, client_id, endpoint_context, **kwargs):
     :return:
     """
 
-    _http_info = kwargs.get("http_info")
-    if not _http_info:
+    # Only a proof can tell which key it is
+    if "dpop_jkt" in request:
+        del request["dpop_jkt"]
+
+    _http_info = kwargs.get("http_info") or {}
+    _dpop_header = _http_info.get("headers", {}).get("dpop")
+    if not _dpop_header:
         return request
 
-    _dpop = DPoPProof().verify_header(_http_info["headers"]["dpop"])
+    _dpop = DPoPProof().verify_header(_dpop_header)
+    if _dpop is None:
+        raise ValueError("The DPoP header is not a signed JWT")
 
     # The signature of the JWS is verified, now for checking the
     # content
+    _dpop.verify()
+
+    if _dpop["alg"] not in endpoint_context.provider_info["dpop_signing_alg_values_supported"]:
+        raise ValueError("Signing algorithm not allowed for DPoP")
 
     if _dpop["htu"] != _http_info["url"]:
         raise ValueError("htu in DPoP does not match the HTTP URI")
@@ -111,9 +127,6 @@ def post_parse_request(request, client_id, endpoint_context, **kwargs):
     if _dpop["htm"] != _http_info["method"]:
         raise ValueError("htm in DPoP does not match the HTTP method")
 
-    if not _dpop.key:
-        _dpop.key = key_from_jwk_dict(_dpop["jwk"])
-
     # Need something I can add as a reference when minting tokens
     request["dpop_jkt"] = as_unicode(_dpop.key.thumbprint("SHA-256"))
     return request
-- 
2.43.0


From 5f9692d697ffd65faed4a7fb41f7fb406e7b9120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:33 +0000
Subject: [PATCH 52/93] fix: a refresh without DPoP proof gives an unbound
 token

---
 src/oidcop/oauth2/token.py | 2 ++
 src/oidcop/oidc/token.py   | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/src/oidcop/oauth2/token.py b/src/oidcop/oauth2/token.py
index 464cdfe..73da9c8 100755
--- a/src/oidcop/oauth2/token.py
+++ b/src/oidcop/oauth2/token.py
@@ -244,6 +244,8 @@ class RefreshTokenHelper(TokenEndpointHelper):
             if _dpop_jkt:
                 _grant.extra["dpop_jkt"] = _dpop_jkt
                 token_type = "DPoP"
+            else:
+                _grant.extra.pop("dpop_jkt", None)
 
         token = _grant.get_token(token_value)
         scope = _grant.find_scope(token.based_on)
diff --git a/src/oidcop/oidc/token.py b/src/oidcop/oidc/token.py
index 6c38c04..853cc93 100755
--- a/src/oidcop/oidc/token.py
+++ b/src/oidcop/oidc/token.py
@@ -71,6 +71,8 @@ class AccessTokenHelper(TokenEndpointHelper):
             if _dpop_jkt:
                 grant.extra["dpop_jkt"] = _dpop_jkt
                 token_type = "DPoP"
+            else:
+                grant.extra.pop("dpop_jkt", None)
 
         _based_on = grant.get_token(_access_code)
         _supports_minting = _based_on.usage_rules.get("supports_minting", [])
@@ -225,6 +227,8 @@ class RefreshTokenHelper(TokenEndpointHelper):
             if _dpop_jkt:
                 _grant.extra["dpop_jkt"] = _dpop_jkt
                 token_type = "DPoP"
+            else:
+                _grant.extra.pop("dpop_jkt", None)
 
         token = _grant.get_token(token_value)
         scope = _grant.find_scope(token.based_on)
-- 
2.43.0


From 2ed5d4fee91127f209dda9c7bf5fa7f2f25a1d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:41 +0000
Subject: [PATCH 53/93] fix: the OAuth2 token endpoint binds tokens to a DPoP
 proof

---
 src/oidcop/oauth2/token.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/oauth2/token.py b/src/oidcop/oauth2/token.py
index 73da9c8..988495b 100755
--- a/src/oidcop/oauth2/token.py
+++ b/src/oidcop/oauth2/token.py
@@ -118,6 +118,17 @@ class AccessTokenHelper(TokenEndpointHelper):
             grant_types_supported = _context.provider_info["grant_types_supported"]
         grant = _session_info["grant"]
 
+        token_type = "Bearer"
+
+        # Is DPOP supported
+        if "dpop_signing_alg_values_supported" in _context.provider_info:
+            _dpop_jkt = req.get("dpop_jkt")
+            if _dpop_jkt:
+                grant.extra["dpop_jkt"] = _dpop_jkt
+                token_type = "DPoP"
+            else:
+                grant.extra.pop("dpop_jkt", None)
+
         _based_on = grant.get_token(_access_code)
         _supports_minting = _based_on.usage_rules.get("supports_minting", [])
 
@@ -135,7 +146,7 @@ class AccessTokenHelper(TokenEndpointHelper):
 
         issue_refresh = kwargs.get("issue_refresh", False)
         _response = {
-            "token_type": "Bearer",
+            "token_type": token_type,
             "scope": grant.scope,
         }
 
@@ -147,6 +158,7 @@ class AccessTokenHelper(TokenEndpointHelper):
                     session_id=_session_info["session_id"],
                     client_id=_session_info["client_id"],
                     based_on=_based_on,
+                    token_type=token_type,
                 )
             except MintingNotAllowed as err:
                 logger.warning(err)
-- 
2.43.0


From 98cdf80dca21670d3e12d3bcaac19bfdd877a7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:52 +0000
Subject: [PATCH 54/93] fix: errors of an authorization request for
 response_type none go in the query

---
 src/oidcop/endpoint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcop/endpoint.py b/src/oidcop/endpoint.py
index 369940b..383e62e 100755
--- a/src/oidcop/endpoint.py
+++ b/src/oidcop/endpoint.py
@@ -72,7 +72,7 @@ def set_content_type(headers, content_type):
 
 
 def fragment_encoding(return_type):
-    if return_type == ["code"]:
+    if return_type in (["code"], ["none"]):
         return False
     else:
         return True
-- 
2.43.0


From d6fc8ceb9b27435c9ad543c6b9d1f9fbc940bf92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:33 +0000
Subject: [PATCH 55/93] fix: no registered redirect URI has a fragment, custom
 schemes included

---
 src/oidcop/oidc/registration.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/oidcop/oidc/registration.py b/src/oidcop/oidc/registration.py
index 529664a..194830c 100755
--- a/src/oidcop/oidc/registration.py
+++ b/src/oidcop/oidc/registration.py
@@ -283,11 +283,15 @@ class Registration(Endpoint):
                 must_https = False
 
         for uri in registration_request["redirect_uris"]:
-            _custom = False
             p = urlparse(uri)
+            if "#" in uri:
+                raise InvalidRedirectURIError("redirect_uri contains fragment")
+            if not p.scheme:
+                raise InvalidRedirectURIError("redirect_uri must be an absolute URI")
+
             if client_type == "native":
                 if p.scheme not in ["http", "https"]:  # Custom scheme
-                    _custom = True
+                    pass
                 elif p.scheme == "http" and p.hostname in ["localhost", "127.0.0.1"]:
                     pass
                 else:
@@ -305,17 +309,12 @@ class Registration(Endpoint):
             elif p.scheme not in ["http", "https"]:
                 # Custom scheme
                 raise InvalidRedirectURIError("Custom redirect_uri not allowed for web client")
-            elif p.fragment:
-                raise InvalidRedirectURIError("redirect_uri contains fragment")
 
-            if _custom:  # Can not verify a custom scheme
-                verified_redirect_uris.append((uri, {}))
+            base, query = split_uri(uri)
+            if query:
+                verified_redirect_uris.append((base, query))
             else:
-                base, query = split_uri(uri)
-                if query:
-                    verified_redirect_uris.append((base, query))
-                else:
-                    verified_redirect_uris.append((base, {}))
+                verified_redirect_uris.append((base, {}))
 
         return verified_redirect_uris
 
-- 
2.43.0


From 69063cce9aec1bd7a6bdeefa546c08b979cb28ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:33 +0000
Subject: [PATCH 56/93] fix: a refused registration leaves nothing behind

---
 src/oidcop/oidc/registration.py | 52 ++++++++++++++++++++++++++-------
 1 file changed, 42 insertions(+), 10 deletions(-)

diff --git a/src/oidcop/oidc/registration.py b/src/oidcop/oidc/registration.py
index 194830c..6675163 100755
--- a/src/oidcop/oidc/registration.py
+++ b/src/oidcop/oidc/registration.py
@@ -381,6 +381,26 @@ class Registration(Endpoint):
 
         return client_secret
 
+    def _undo_registration(self, client_id, rat, previous, previous_keys):
+        """
+        A refused registration must not leave anything behind.
+        """
+        _context = self.server_get("endpoint_context")
+
+        if previous is None:
+            del _context.cdb[client_id]
+        else:
+            _context.cdb[client_id] = previous
+
+        if rat:
+            _context.registration_access_token.pop(rat, None)
+
+        if client_id in _context.keyjar:
+            if previous_keys is None:
+                del _context.keyjar[client_id]
+            else:
+                _context.keyjar[client_id].set(previous_keys)
+
     def client_registration_setup(self, request, new_id=True, set_secret=True):
         try:
             request.verify()
@@ -432,19 +452,31 @@ class Registration(Endpoint):
 
         logger.debug("Stored client info in CDB under cid={}".format(client_id))
 
+        # To be able to go back if the registration is refused
+        _previous = _context.cdb.get(client_id)
+        _previous_keys = None
+        if client_id in _context.keyjar:
+            _previous_keys = list(_context.keyjar[client_id])
+        _rat = _cinfo.get("registration_access_token")
+
         _context.cdb[client_id] = _cinfo
-        _cinfo = self.do_client_registration(
-            request,
-            client_id,
-            ignore=["redirect_uris", "policy_uri", "logo_uri", "tos_uri"],
-        )
-        if isinstance(_cinfo, ResponseMessage):
-            return _cinfo
+        try:
+            _cinfo = self.do_client_registration(
+                request,
+                client_id,
+                ignore=["redirect_uris", "policy_uri", "logo_uri", "tos_uri"],
+            )
+            if isinstance(_cinfo, ResponseMessage):
+                self._undo_registration(client_id, _rat, _previous, _previous_keys)
+                return _cinfo
 
-        args = dict([(k, v) for k, v in _cinfo.items() if k in self.response_cls.c_param])
+            args = dict([(k, v) for k, v in _cinfo.items() if k in self.response_cls.c_param])
 
-        comb_uri(args)
-        response = self.response_cls(**args)
+            comb_uri(args)
+            response = self.response_cls(**args)
+        except Exception:
+            self._undo_registration(client_id, _rat, _previous, _previous_keys)
+            raise
 
         # Add the client_secret as a symmetric key to the key jar
         if client_secret:
-- 
2.43.0


From 73ce8c8e882cddd0491cd56d6fcabc81f3d797a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:33 +0000
Subject: [PATCH 57/93] fix: a client can not register what the provider
 decides

---
 src/oidcop/oidc/registration.py | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/oidc/registration.py b/src/oidcop/oidc/registration.py
index 6675163..6c57e2d 100755
--- a/src/oidcop/oidc/registration.py
+++ b/src/oidcop/oidc/registration.py
@@ -44,6 +44,28 @@ PREFERENCE2PROVIDER = {
     "grant_types": "grant_types_supported",
 }
 
+# What the provider decides about a client. Nothing a client can register.
+PROVIDER_DECIDES = [
+    "add_claims",
+    "allowed_scopes",
+    "auth_method",
+    "client_id",
+    "client_id_issued_at",
+    "client_salt",
+    "client_secret",
+    "client_secret_expires_at",
+    "dpop_jkt",
+    "grant_types_supported",
+    "pkce_essential",
+    "registration_access_token",
+    "registration_client_uri",
+    "revoke_refresh_on_issue",
+    "scopes_to_claims",
+    "sector_id",
+    "si_redirects",
+    "token_usage_rules",
+]
+
 logger = logging.getLogger(__name__)
 
 
@@ -177,7 +199,7 @@ class Registration(Endpoint):
         logger.debug("_cinfo: %s" % sanitize(_cinfo))
 
         for key, val in request.items():
-            if key not in ignore:
+            if key not in ignore and key not in PROVIDER_DECIDES:
                 _cinfo[key] = val
 
         _uri = request.get("post_logout_redirect_uri")
-- 
2.43.0


From 67263e06979288bb0677c3a2eda1aba2ee4c4a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:33 +0000
Subject: [PATCH 58/93] fix: a sector identifier document must be a list

---
 src/oidcop/oidc/registration.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/oidcop/oidc/registration.py b/src/oidcop/oidc/registration.py
index 6c57e2d..ee588ad 100755
--- a/src/oidcop/oidc/registration.py
+++ b/src/oidcop/oidc/registration.py
@@ -365,6 +365,9 @@ class Registration(Endpoint):
         except ValueError:
             raise InvalidSectorIdentifier("Error deserializing sector_identifier_uri content")
 
+        if not isinstance(si_redirects, list):
+            raise InvalidSectorIdentifier("sector_identifier_uri content must be a list")
+
         if "redirect_uris" in request:
             logger.debug("redirect_uris: %s", request["redirect_uris"])
             for uri in request["redirect_uris"]:
-- 
2.43.0


From 38bc16c4920a6b3b936ac785f9470cd9306e1ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:04 +0000
Subject: [PATCH 59/93] fix: registering keys keeps the registered jwks as it
 was sent

---
 src/oidcop/oidc/registration.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/oidc/registration.py b/src/oidcop/oidc/registration.py
index ee588ad..f5679f4 100755
--- a/src/oidcop/oidc/registration.py
+++ b/src/oidcop/oidc/registration.py
@@ -1,3 +1,4 @@
+import copy
 import hashlib
 import hmac
 import json
@@ -279,7 +280,8 @@ class Registration(Endpoint):
 
         for item in ["jwks_uri", "jwks"]:
             if item in request:
-                t[item] = request[item]
+                # loading keys modifies what it is given
+                t[item] = copy.deepcopy(request[item])
 
         # if it can't load keys because the URL is false it will
         # just silently fail. Waiting for better times.
-- 
2.43.0


From 8cc5b20d487f4181fa18c168e77ec5f65a15df85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:48 +0000
Subject: [PATCH 60/93] fix: an ID token hint at logout must come from this
 provider

---
 src/oidcop/oidc/session.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/oidcop/oidc/session.py b/src/oidcop/oidc/session.py
index 79a7f9d..df7f186 100644
--- a/src/oidcop/oidc/session.py
+++ b/src/oidcop/oidc/session.py
@@ -385,6 +385,8 @@ class Session(Endpoint):
             except KeyError:
                 pass
             else:
+                if _ith["iss"] != _context.issuer:
+                    raise InvalidRequest("Not one of my ID Tokens")
                 if (
                     _ith.jws_header["alg"]
                     not in _context.provider_info["id_token_signing_alg_values_supported"]
-- 
2.43.0


From e3607cc64641015218a37ec27c8cab55372e2467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:48 +0000
Subject: [PATCH 61/93] fix: the post logout redirect URI must belong to the
 client whose session it is

---
 src/oidcop/oidc/session.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/oidc/session.py b/src/oidcop/oidc/session.py
index df7f186..5ad858a 100644
--- a/src/oidcop/oidc/session.py
+++ b/src/oidcop/oidc/session.py
@@ -317,9 +317,10 @@ class Session(Endpoint):
             plur = False
         else:
             plur = True
+            # has to be registered by the client whose session this is
             verify_uri(
                 _context,
-                request,
+                {"post_logout_redirect_uri": _uri},
                 "post_logout_redirect_uri",
                 client_id=_session_info["client_id"],
             )
-- 
2.43.0


From 32433773c29e323a7598a9dc6c95b19dfff51ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:48 +0000
Subject: [PATCH 62/93] fix: a registered post_logout_redirect_uri can be used

---
 src/oidcop/oauth2/authorization.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index ce419f1..1c4135d 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -160,6 +160,9 @@ def verify_uri(
         raise KeyError("No such client")
 
     redirect_uris = client_info.get(f"{uri_type}s")
+    if redirect_uris is None and client_info.get(uri_type):
+        # only one can be registered
+        redirect_uris = [client_info[uri_type]]
 
     if redirect_uris is None:
         raise RedirectURIError(f"No registered {uri_type} for {_cid}")
-- 
2.43.0


From 967823258820655d2458f6c72f13da1235a8e242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:48 +0000
Subject: [PATCH 63/93] fix: state is added to a post logout redirect URI that
 has a query

---
 src/oidcop/oidc/session.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/oidc/session.py b/src/oidcop/oidc/session.py
index 5ad858a..790c48b 100644
--- a/src/oidcop/oidc/session.py
+++ b/src/oidcop/oidc/session.py
@@ -331,7 +331,9 @@ class Session(Endpoint):
 
         # redirect user to OP logout verification page
         if plur and "state" in request:
-            _uri = "{}?{}".format(_uri, urlencode({"state": request["state"]}))
+            _uri = "{}{}{}".format(
+                _uri, "&" if "?" in _uri else "?", urlencode({"state": request["state"]})
+            )
             payload["state"] = request["state"]
 
         payload["redirect_uri"] = _uri
-- 
2.43.0


From 78da3e1d4b72419d5210ceba100f0b3ef5543612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:48 +0000
Subject: [PATCH 64/93] fix: logout from all clients ends the sessions at all
 clients

---
 src/oidcop/oidc/session.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/oidcop/oidc/session.py b/src/oidcop/oidc/session.py
index 790c48b..6767278 100644
--- a/src/oidcop/oidc/session.py
+++ b/src/oidcop/oidc/session.py
@@ -167,6 +167,10 @@ class Session(Endpoint):
         fc_iframes = {}
         _rel_sid = []
         for _client_id in _session_info["user_session_info"].subordinate:
+            # Told about it or not, the session with the client is over.
+            _rel_sid.append(_mngr.encrypted_session_id(_user_id, _client_id))
+            if _client_id not in _cdb:
+                continue
             # I prefer back-channel. Should it be configurable ?
             if "backchannel_logout_uri" in _cdb[_client_id]:
                 _cli = _mngr.get([_user_id, _client_id])
@@ -177,7 +181,6 @@ class Session(Endpoint):
                         continue
                     idt = grant.last_issued_token_of_type("id_token")
                     if idt:
-                        _rel_sid.append(idt.session_id)
                         _spec = self.do_back_channel_logout(_cdb[_client_id], idt.session_id)
                         if _spec:
                             bc_logouts[_client_id] = _spec
@@ -191,7 +194,6 @@ class Session(Endpoint):
                         continue
                     idt = grant.last_issued_token_of_type("id_token")
                     if idt:
-                        _rel_sid.append(idt.session_id)
                         # Construct an IFrame
                         _spec = do_front_channel_logout_iframe(
                             _cdb[_client_id], _iss, idt.session_id
-- 
2.43.0


From 1029e9df6f75a5f1d9980992f25bf6ca4220a918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:48 +0000
Subject: [PATCH 65/93] fix: back-channel logout works for configured clients

---
 src/oidcop/oidc/session.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/oidcop/oidc/session.py b/src/oidcop/oidc/session.py
index 6767278..4c27950 100644
--- a/src/oidcop/oidc/session.py
+++ b/src/oidcop/oidc/session.py
@@ -107,11 +107,12 @@ class Session(Endpoint):
         ctx, tag = split_ctx_and_tag(_msg)
         return as_unicode(encrypter.decrypt(as_bytes(ctx), iv=self.iv, tag=as_bytes(tag)))
 
-    def do_back_channel_logout(self, cinfo, sid):
+    def do_back_channel_logout(self, cinfo, sid, client_id=""):
         """
 
         :param cinfo: Client information
         :param sid: The session ID
+        :param client_id: The client, configured clients don't have it among the client information
         :return: Tuple with logout URI and signed logout token
         """
 
@@ -122,6 +123,8 @@ class Session(Endpoint):
         except KeyError:
             return None
 
+        client_id = client_id or cinfo["client_id"]
+
         # Create the logout token
         # always include sub and sid so I don't check for
         # backchannel_logout_session_required
@@ -137,7 +140,7 @@ class Session(Endpoint):
 
         _jws = JWT(_context.keyjar, iss=_context.issuer, lifetime=86400, sign_alg=alg)
         _jws.with_jti = True
-        _logout_token = _jws.pack(payload=payload, recv=cinfo["client_id"])
+        _logout_token = _jws.pack(payload=payload, recv=client_id)
 
         return back_channel_logout_uri, _logout_token
 
@@ -181,7 +184,9 @@ class Session(Endpoint):
                         continue
                     idt = grant.last_issued_token_of_type("id_token")
                     if idt:
-                        _spec = self.do_back_channel_logout(_cdb[_client_id], idt.session_id)
+                        _spec = self.do_back_channel_logout(
+                            _cdb[_client_id], idt.session_id, _client_id
+                        )
                         if _spec:
                             bc_logouts[_client_id] = _spec
                         break
@@ -233,7 +238,7 @@ class Session(Endpoint):
 
         res = {}
         if "backchannel_logout_uri" in _cdb[_client_id]:
-            _spec = self.do_back_channel_logout(_cdb[_client_id], sid)
+            _spec = self.do_back_channel_logout(_cdb[_client_id], sid, _client_id)
             if _spec:
                 res["blu"] = {_client_id: _spec}
         elif "frontchannel_logout_uri" in _cdb[_client_id]:
-- 
2.43.0


From 3220a1cce252da162d9216fac0e6197bb3b993ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:48 +0000
Subject: [PATCH 66/93] fix: logout tokens signed with the client's secret

---
 src/oidcop/oidc/session.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/oidc/session.py b/src/oidcop/oidc/session.py
index 4c27950..c450e26 100644
--- a/src/oidcop/oidc/session.py
+++ b/src/oidcop/oidc/session.py
@@ -140,7 +140,9 @@ class Session(Endpoint):
 
         _jws = JWT(_context.keyjar, iss=_context.issuer, lifetime=86400, sign_alg=alg)
         _jws.with_jti = True
-        _logout_token = _jws.pack(payload=payload, recv=client_id)
+        # HMAC based algorithms use the secret shared with the client
+        _owner = client_id if alg.startswith("HS") else ""
+        _logout_token = _jws.pack(payload=payload, issuer_id=_owner, recv=client_id)
 
         return back_channel_logout_uri, _logout_token
 
-- 
2.43.0


From 511caafb367b0caef7e2139cf4a37cadd4bc802d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:48 +0000
Subject: [PATCH 67/93] fix: a client that can not be reached does not stop the
 logout of the others

---
 src/oidcop/oidc/session.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/oidcop/oidc/session.py b/src/oidcop/oidc/session.py
index c450e26..a3864b3 100644
--- a/src/oidcop/oidc/session.py
+++ b/src/oidcop/oidc/session.py
@@ -422,12 +422,17 @@ class Session(Endpoint):
                 _url, sjwt = spec
                 logger.info("logging out from {} at {}".format(_cid, _url))
 
-                res = _context.httpc.post(
-                    _url,
-                    data="logout_token={}".format(sjwt),
-                    headers={"Content-Type": "application/x-www-form-urlencoded"},
-                    **_context.httpc_params,
-                )
+                try:
+                    res = _context.httpc.post(
+                        _url,
+                        data="logout_token={}".format(sjwt),
+                        headers={"Content-Type": "application/x-www-form-urlencoded"},
+                        **_context.httpc_params,
+                    )
+                except Exception as err:
+                    # The other clients must still be told
+                    logger.error("failed to logout from {}: {}".format(_cid, err))
+                    continue
 
                 if res.status_code < 300:
                     logger.info("Logged out from {}".format(_cid))
-- 
2.43.0


From 7b46f3cd72a0978753e250e76c01d5cdd53e597e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:48 +0000
Subject: [PATCH 68/93] fix: front-channel logout URIs are escaped in the
 iframe

---
 src/oidcop/oidc/session.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/oidcop/oidc/session.py b/src/oidcop/oidc/session.py
index a3864b3..f497407 100644
--- a/src/oidcop/oidc/session.py
+++ b/src/oidcop/oidc/session.py
@@ -1,3 +1,4 @@
+import html
 import json
 import logging
 from typing import Optional
@@ -64,13 +65,11 @@ def do_front_channel_logout_iframe(cinfo, iss, sid):
             frontchannel_logout_uri = _np.geturl()
 
         logger.debug(f"IFrame query: {_query}")
-        _iframe = '<iframe src="{}?{}">'.format(
+        frontchannel_logout_uri = "{}?{}".format(
             frontchannel_logout_uri, urlencode(_query, doseq=True)
         )
-    else:
-        _iframe = '<iframe src="{}">'.format(frontchannel_logout_uri)
 
-    return _iframe
+    return '<iframe src="{}">'.format(html.escape(frontchannel_logout_uri, quote=True))
 
 
 class Session(Endpoint):
-- 
2.43.0


From b9e848913ef6be95626982a27041cc9c084b7dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:21 +0000
Subject: [PATCH 69/93] fix: an access token is not an ID token hint

---
 src/oidcop/oidc/session.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/oidcop/oidc/session.py b/src/oidcop/oidc/session.py
index f497407..6a10624 100644
--- a/src/oidcop/oidc/session.py
+++ b/src/oidcop/oidc/session.py
@@ -398,6 +398,8 @@ class Session(Endpoint):
             else:
                 if _ith["iss"] != _context.issuer:
                     raise InvalidRequest("Not one of my ID Tokens")
+                if _ith.get("token_class", "id_token") != "id_token":
+                    raise InvalidRequest("Not an ID Token")
                 if (
                     _ith.jws_header["alg"]
                     not in _context.provider_info["id_token_signing_alg_values_supported"]
-- 
2.43.0


From 6c6ae4441cd5fab96d39f308c76e27b16dbc27b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:20 +0000
Subject: [PATCH 70/93] fix: a request object must be the client's own and use
 algorithms the client may use

---
 src/oidcop/oauth2/authorization.py        | 61 ++++++++++++++++-------
 src/oidcop/oauth2/pushed_authorization.py |  6 ++-
 2 files changed, 47 insertions(+), 20 deletions(-)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index 1c4135d..9fa4727 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -319,6 +319,7 @@ class Authorization(Endpoint):
 
     def __init__(self, server_get, **kwargs):
         Endpoint.__init__(self, server_get, **kwargs)
+        self.post_parse_request.append(self._do_request_parameter)
         self.post_parse_request.append(self._do_request_uri)
         self.post_parse_request.append(self._post_parse_request)
         self.allowed_request_algorithms = AllowedAlgorithms(ALG_PARAMS)
@@ -362,6 +363,43 @@ class Authorization(Endpoint):
 
         return token
 
+    def _verify_request_object(self, request_object, client_id, endpoint_context):
+        """
+        A request object must be made by the client it is used by, with algorithms that client
+        may use.
+
+        :param request_object: A request object, the signature of which has been verified with
+            a key of whoever says to have issued it.
+        """
+        if request_object.get("iss", client_id) != client_id:
+            raise ValueError("The request object belongs to someone else")
+
+        # If there is no JWS header it's not signed
+        _jws_header = request_object.jws_header or {"alg": "none"}
+        self.allowed_request_algorithms(
+            client_id, endpoint_context, _jws_header.get("alg", "RS256"), "sign",
+        )
+        _jwe_header = request_object.jwe_header
+        if _jwe_header is not None:
+            self.allowed_request_algorithms(
+                client_id, endpoint_context, _jwe_header.get("alg"), "enc_alg",
+            )
+            self.allowed_request_algorithms(
+                client_id, endpoint_context, _jwe_header.get("enc"), "enc_enc",
+            )
+
+    def _do_request_parameter(self, request, client_id, endpoint_context, **kwargs):
+        _request_object = request.get(verified_claim_name("request"))
+        if _request_object:
+            if _request_object.jws_header and "iss" not in _request_object:
+                if _request_object.jws_header.get("alg") != "none":
+                    # Then it was verified with the keys of this server
+                    raise ValueError("A signed request object must have an issuer")
+            if _request_object.get("client_id", client_id) != client_id:
+                raise ValueError("The request object belongs to someone else")
+            self._verify_request_object(_request_object, client_id, endpoint_context)
+        return request
+
     def _do_request_uri(self, request, client_id, endpoint_context, **kwargs):
         _request_uri = request.get("request_uri")
         if _request_uri:
@@ -397,25 +435,10 @@ class Authorization(Endpoint):
             if _resp.status_code == 200:
                 args = {"keyjar": endpoint_context.keyjar, "issuer": client_id}
                 _ver_request = self.request_cls().from_jwt(_resp.text, **args)
-                self.allowed_request_algorithms(
-                    client_id,
-                    endpoint_context,
-                    _ver_request.jws_header.get("alg", "RS256"),
-                    "sign",
-                )
-                if _ver_request.jwe_header is not None:
-                    self.allowed_request_algorithms(
-                        client_id,
-                        endpoint_context,
-                        _ver_request.jws_header.get("alg"),
-                        "enc_alg",
-                    )
-                    self.allowed_request_algorithms(
-                        client_id,
-                        endpoint_context,
-                        _ver_request.jws_header.get("enc"),
-                        "enc_enc",
-                    )
+                self._verify_request_object(_ver_request, client_id, endpoint_context)
+                if "client_id" in request and "client_id" in _ver_request:
+                    if request["client_id"] != _ver_request["client_id"]:
+                        raise ValueError("The request object belongs to someone else")
                 # The protected info overwrites the non-protected
                 for k, v in _ver_request.items():
                     request[k] = v
diff --git a/src/oidcop/oauth2/pushed_authorization.py b/src/oidcop/oauth2/pushed_authorization.py
index 6473195..f0d3ff8 100644
--- a/src/oidcop/oauth2/pushed_authorization.py
+++ b/src/oidcop/oauth2/pushed_authorization.py
@@ -32,7 +32,11 @@ class PushedAuthorization(Authorization):
     def __init__(self, server_get, **kwargs):
         Authorization.__init__(self, server_get, **kwargs)
         # self.pre_construct.append(self._pre_construct)
-        self.post_parse_request = [self._authorization_request, self._post_parse_request]
+        self.post_parse_request = [
+            self._do_request_parameter,
+            self._authorization_request,
+            self._post_parse_request,
+        ]
         self.ttl = kwargs.get("ttl", 3600)
 
     def _authorization_request(self, request, client_id, endpoint_context, **kwargs):
-- 
2.43.0


From 041a9c723bcecd3c523ce038499e2ba233b6f198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:20 +0000
Subject: [PATCH 71/93] fix: require_request_uri_registration also holds for a
 client that registered none

---
 src/oidcop/oauth2/authorization.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index 9fa4727..ab854b7 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -429,6 +429,8 @@ class Authorization(Endpoint):
                 # ignore registered fragments for now.
                 if _p[0] not in [base for base, qp in _registered]:
                     raise ValueError("A request_uri outside the registered")
+            elif endpoint_context.provider_info.get("require_request_uri_registration"):
+                raise ValueError("A request_uri must be registered")
 
             # Fetch the request
             _resp = endpoint_context.httpc.get(_request_uri, **endpoint_context.httpc_params)
-- 
2.43.0


From a15c69d46a1df7a7df07d868bd2b64e283411b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:20 +0000
Subject: [PATCH 72/93] fix: verify the request that a fetched request object
 makes

---
 src/oidcop/oauth2/authorization.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index ab854b7..a6bbc22 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -445,6 +445,8 @@ class Authorization(Endpoint):
                 for k, v in _ver_request.items():
                     request[k] = v
 
+                # It's the combination that must be a valid request
+                request.verify(keyjar=endpoint_context.keyjar, opponent_id=client_id)
                 request[verified_claim_name("request")] = _ver_request
             else:
                 raise ServiceError("Got a %s response", _resp.status)
-- 
2.43.0


From 360003acefeb16bc898b8815246e722dfe9cfb3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:20 +0000
Subject: [PATCH 73/93] fix: the pushed authorization endpoint does not decide
 what the server announces

---
 src/oidcop/oauth2/pushed_authorization.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/oidcop/oauth2/pushed_authorization.py b/src/oidcop/oauth2/pushed_authorization.py
index f0d3ff8..9b2166f 100644
--- a/src/oidcop/oauth2/pushed_authorization.py
+++ b/src/oidcop/oauth2/pushed_authorization.py
@@ -28,6 +28,8 @@ class PushedAuthorization(Authorization):
     response_placement = "body"
     response_format = "json"
     name = "pushed_authorization"
+    # What is supported is for the authorization endpoint to say
+    default_capabilities = None
 
     def __init__(self, server_get, **kwargs):
         Authorization.__init__(self, server_get, **kwargs)
-- 
2.43.0


From 3c18b0959e09b21f9b4bc6b7fcf01e5f3a8c6e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:31 +0000
Subject: [PATCH 74/93] fix: userinfo is encrypted also for a client that left
 the content encryption to the default

---
 src/oidcop/oidc/userinfo.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/oidc/userinfo.py b/src/oidcop/oidc/userinfo.py
index 6a26dd4..bd26c9b 100755
--- a/src/oidcop/oidc/userinfo.py
+++ b/src/oidcop/oidc/userinfo.py
@@ -76,8 +76,9 @@ class UserInfo(Endpoint):
             sign = False
 
         try:
-            enc_enc = _cinfo["userinfo_encrypted_response_enc"]
             enc_alg = _cinfo["userinfo_encrypted_response_alg"]
+            # The default if only the key management algorithm is registered
+            enc_enc = _cinfo.get("userinfo_encrypted_response_enc", "A128CBC-HS256")
             encrypt = True
         except KeyError:
             encrypt = False
-- 
2.43.0


From a28d6fde84171346741bdf6f62fcff032d42298d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:10 +0000
Subject: [PATCH 75/93] fix: what is found out about a server is not written
 into its configuration

---
 src/oidcop/server.py | 24 ++++++------------------
 src/oidcop/util.py   |  5 ++---
 2 files changed, 8 insertions(+), 21 deletions(-)

diff --git a/src/oidcop/server.py b/src/oidcop/server.py
index 1972aff..1585cd6 100644
--- a/src/oidcop/server.py
+++ b/src/oidcop/server.py
@@ -1,3 +1,4 @@
+import copy
 from typing import Any
 from typing import Optional
 from typing import Union
@@ -20,26 +21,13 @@ from oidcop.util import build_endpoints
 
 
 def do_endpoints(conf, server_get):
-    endpoints = build_endpoints(conf["endpoint"], server_get=server_get, issuer=conf["issuer"])
-
-    _cap = conf.get("capabilities", {})
-
-    for endpoint, endpoint_instance in endpoints.items():
-        if endpoint in ["webfinger", "provider_config"]:
-            continue
-
-        if endpoint_instance.endpoint_info:
-            for key, val in endpoint_instance.endpoint_info.items():
-                if key not in _cap:
-                    _cap[key] = val
-
-    return endpoints
+    return build_endpoints(conf["endpoint"], server_get=server_get, issuer=conf["issuer"])
 
 
 def get_capabilities(conf, endpoints):
-    _cap = conf.get("capabilities", {})
-    if _cap is None:
-        _cap = {}
+    # What is found out about this server is not added to the configuration, that may be used
+    # for other servers too.
+    _cap = copy.deepcopy(conf.get("capabilities") or {})
 
     for endpoint, endpoint_instance in endpoints.items():
         if endpoint in ["webfinger", "provider_config"]:
@@ -48,7 +36,7 @@ def get_capabilities(conf, endpoints):
         if endpoint_instance.endpoint_info:
             for key, val in endpoint_instance.endpoint_info.items():
                 if key not in _cap:
-                    _cap[key] = val
+                    _cap[key] = copy.deepcopy(val)
 
     return _cap
 
diff --git a/src/oidcop/util.py b/src/oidcop/util.py
index b8cde36..c379761 100755
--- a/src/oidcop/util.py
+++ b/src/oidcop/util.py
@@ -195,9 +195,8 @@ def allow_refresh_token(endpoint_context):
 
     # Is refresh_token grant type supported
     _token_supported = False
-    _cap = endpoint_context.conf.get("capabilities")
-    if _cap:
-        if "refresh_token" in _cap["grant_types_supported"]:
+    if endpoint_context.conf.get("capabilities") is not None:
+        if "refresh_token" in endpoint_context.provider_info.get("grant_types_supported", []):
             # self.allow_refresh = kwargs.get("allow_refresh", True)
             _token_supported = True
 
-- 
2.43.0


From 025727760748ce648c7fc7a1bd6f227829d403d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:10 +0000
Subject: [PATCH 76/93] fix: the rules of one grant do not become the default
 of every other

---
 src/oidcop/session/grant.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcop/session/grant.py b/src/oidcop/session/grant.py
index d730787..35884d3 100644
--- a/src/oidcop/session/grant.py
+++ b/src/oidcop/session/grant.py
@@ -436,7 +436,7 @@ def get_usage_rules(token_type, endpoint_context, grant, client_id):
 
     _usage = endpoint_context.authz.usage_rules_for(client_id, token_type)
     if not _usage:
-        _usage = DEFAULT_USAGE[token_type]
+        _usage = DEFAULT_USAGE[token_type].copy()
 
     _grant_usage = grant.usage_rules.get(token_type)
     if _grant_usage:
-- 
2.43.0


From d2ce37e9f8df3e372191fce8b69b26ecbc0c8dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:15 +0000
Subject: [PATCH 77/93] fix: no session for an authorization request whose
 response mode can not be used

---
 src/oidcop/oauth2/authorization.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index a6bbc22..45adf49 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -27,6 +27,7 @@ from oidcop import rndstr
 from oidcop.authn_event import create_authn_event
 from oidcop.cookie_handler import compute_session_state
 from oidcop.endpoint import Endpoint
+from oidcop.endpoint import fragment_encoding
 from oidcop.endpoint_context import EndpointContext
 from oidcop.exception import InvalidRequest
 from oidcop.exception import NoSuchAuthentication
@@ -1071,6 +1072,18 @@ class Authorization(Endpoint):
 
         kwargs = self.do_request_user(request_info=request, **kwargs)
 
+        if "response_mode" in request:
+            # No session for a request that can not be responded to
+            try:
+                self.response_mode(
+                    request,
+                    response_args={},
+                    return_uri=request["redirect_uri"],
+                    fragment_enc=fragment_encoding(request["response_type"]),
+                )
+            except InvalidRequest as err:
+                return self.error_response({}, request, "invalid_request", "{}".format(err.args))
+
         info = self.setup_auth(request, request["redirect_uri"], cinfo, _my_cookies, **kwargs)
 
         if "error" in info:
-- 
2.43.0


From e871b874690b2bb4730a9c00d10906ed1259499b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:15 +0000
Subject: [PATCH 78/93] fix: a client assertion comes with its type

---
 src/oidcop/client_authn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcop/client_authn.py b/src/oidcop/client_authn.py
index 0a0b22d..b022acb 100755
--- a/src/oidcop/client_authn.py
+++ b/src/oidcop/client_authn.py
@@ -184,7 +184,7 @@ class JWSAuthnMethod(ClientAuthnMethod):
         if request is None:
             return False
         if "client_assertion" in request:
-            return True
+            return request.get("client_assertion_type") == JWT_BEARER
         return False
 
     def verify(self, request, key_type, **kwargs):
-- 
2.43.0


From 34d5459a54a597c2c4a8bda90aaa4c8b70f1f9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:44 +0000
Subject: [PATCH 79/93] fix: response_type=none stated twice is still none

---
 src/oidcop/oauth2/authorization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index 45adf49..5149e60 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -815,7 +815,7 @@ class Authorization(Endpoint):
         if request.get("state"):
             aresp["state"] = request["state"]
 
-        if "response_type" in request and request["response_type"] == ["none"]:
+        if "response_type" in request and set(request["response_type"]) == {"none"}:
             fragment_enc = False
         else:
             _context = self.server_get("endpoint_context")
-- 
2.43.0


From dc1465fb85640f9d611166a15b43dbe2d25d9e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:11 +0000
Subject: [PATCH 80/93] fix: responses to response_type=code stated twice are
 encoded as those to code

---
 src/oidcop/endpoint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcop/endpoint.py b/src/oidcop/endpoint.py
index 383e62e..a018de5 100755
--- a/src/oidcop/endpoint.py
+++ b/src/oidcop/endpoint.py
@@ -72,7 +72,7 @@ def set_content_type(headers, content_type):
 
 
 def fragment_encoding(return_type):
-    if return_type in (["code"], ["none"]):
+    if set(return_type) in ({"code"}, {"none"}):
         return False
     else:
         return True
-- 
2.43.0


From 5aaee0d5938c20d89fe3c433da505b9eee531263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:17 +0000
Subject: [PATCH 81/93] fix: an essential acr claim is not answered with
 another authentication

---
 src/oidcop/oauth2/authorization.py     |  6 ++++++
 src/oidcop/user_authn/authn_context.py | 23 ++++++++++++++++++++++-
 2 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index 5149e60..9cb2a6a 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -39,6 +39,7 @@ from oidcop.exception import UnAuthorizedClientScope
 from oidcop.exception import UnknownClient
 from oidcop.session import Revoked
 from oidcop.token.exception import UnknownToken
+from oidcop.user_authn.authn_context import essential_acrs
 from oidcop.user_authn.authn_context import pick_auth
 from oidcop.util import split_uri
 
@@ -698,6 +699,11 @@ class Authorization(Endpoint):
                         logger.info("Too old authentication")
                         return self._need_login(redirect_uri, request, authn, authn_args)
 
+                    _acrs = essential_acrs(request)
+                    if _acrs and grant.authentication_event["authn_info"] not in _acrs:
+                        logger.info("Not authenticated in the way that was asked for")
+                        return self._need_login(redirect_uri, request, authn, authn_args)
+
                     if request != grant.authorization_request:
                         authn_event = _mngr.get_authentication_event(session_id=_session_id)
                         if authn_event.is_valid() is False:  # if not valid, do new login
diff --git a/src/oidcop/user_authn/authn_context.py b/src/oidcop/user_authn/authn_context.py
index f6079c9..dc776fd 100755
--- a/src/oidcop/user_authn/authn_context.py
+++ b/src/oidcop/user_authn/authn_context.py
@@ -121,6 +121,20 @@ def _acr_claim(request):
     return None
 
 
+def essential_acrs(request):
+    """
+    The Authentication Context Class References, one of which the authentication must be.
+
+    :param request: The authorization request
+    :return: A list, empty if there are no such demands.
+    """
+    _claims = (request.get("claims") or {}).get("id_token") or {}
+    _acr = _claims.get("acr") or {}
+    if _acr.get("essential"):
+        return _acr_claim(request) or []
+    return []
+
+
 def pick_auth(endpoint_context, areq, pick_all=False):
     """
     Pick authentication method
@@ -128,7 +142,14 @@ def pick_auth(endpoint_context, areq, pick_all=False):
     :param areq: AuthorizationRequest instance
     :return: A dictionary with the authentication method and its authn class ref
     """
-    acrs = []
+    acrs = essential_acrs(areq)
+    if acrs:
+        for acr in acrs:
+            res = endpoint_context.authn_broker.pick(acr)
+            if res:
+                return res if pick_all else res[0]
+        return None
+
     if len(endpoint_context.authn_broker) == 1:
         return endpoint_context.authn_broker.default()
 
-- 
2.43.0


From 6c6cecf7f63e58da906afd1f76295d25809cb1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:27 +0000
Subject: [PATCH 82/93] fix: defaulted configuration values get the domain and
 port

---
 src/oidcop/configure.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/oidcop/configure.py b/src/oidcop/configure.py
index d38c42c..8c7f812 100755
--- a/src/oidcop/configure.py
+++ b/src/oidcop/configure.py
@@ -132,15 +132,16 @@ class EntityConfiguration(Base):
             _val = conf.get(key)
             if not _val:
                 if key in self.default_config:
-                    _val = copy.deepcopy(self.default_config[key])
+                    _default = {key: copy.deepcopy(self.default_config[key])}
                     self.format(
-                        _val,
+                        _default,
                         base_path=base_path,
                         file_attributes=file_attributes,
-                        domain=domain,
-                        port=port,
+                        domain=self.domain,
+                        port=self.port,
                         dir_attributes=dir_attributes
                     )
+                    _val = _default[key]
                 else:
                     continue
 
-- 
2.43.0


From d62f918d8134b73ae3aeff81b1149f2ef7c05ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:27 +0000
Subject: [PATCH 83/93] fix: a configured timeout and CA bundle reach the HTTP
 client

---
 src/oidcop/util.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/util.py b/src/oidcop/util.py
index c379761..f5af490 100755
--- a/src/oidcop/util.py
+++ b/src/oidcop/util.py
@@ -156,11 +156,15 @@ def get_http_params(config):
     if _verify_ssl is None:
         _verify_ssl = config.get("verify_ssl")
 
-    if _verify_ssl in [True, False]:
+    if _verify_ssl is not None:
         params = {"verify": _verify_ssl}
     else:
         params = {}
 
+    _timeout = config.get("timeout")
+    if _timeout is not None:
+        params["timeout"] = _timeout
+
     _cert = config.get("client_cert")
     _key = config.get("client_key")
     if _cert:
-- 
2.43.0


From efa939726f7b22deeff4012f4774a8964aa8f2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:27 +0000
Subject: [PATCH 84/93] fix: max-age of a cookie is a number of seconds

---
 src/oidcop/cookie_handler.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/oidcop/cookie_handler.py b/src/oidcop/cookie_handler.py
index 27eab71..3060009 100755
--- a/src/oidcop/cookie_handler.py
+++ b/src/oidcop/cookie_handler.py
@@ -16,7 +16,6 @@ from cryptojwt.jwk.hmac import SYMKey
 from cryptojwt.jws.hmac import HMACSigner
 from cryptojwt.jwt import utc_time_sans_frac
 from cryptojwt.key_jar import init_key_jar
-from oidcmsg.time_util import epoch_in_a_while
 
 from oidcop.util import lv_pack
 from oidcop.util import lv_unpack
@@ -250,7 +249,7 @@ class CookieHandler:
         if max_age == -1:
             content["expires"] = "Thu, 01 Jan 1970 00:00:00 GMT;"
         elif max_age:
-            content["max-age"] = epoch_in_a_while(seconds=max_age)
+            content["max-age"] = max_age
 
         for k, v in self.flags.items():
             content[k] = v
-- 
2.43.0


From 38809933ce0f4c38ec085844da709011c5c71912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:27 +0000
Subject: [PATCH 85/93] fix: session_state is computed with the origin a
 browser states

---
 src/oidcop/cookie_handler.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/cookie_handler.py b/src/oidcop/cookie_handler.py
index 3060009..323a6ab 100755
--- a/src/oidcop/cookie_handler.py
+++ b/src/oidcop/cookie_handler.py
@@ -305,6 +305,11 @@ def compute_session_state(opbs, salt, client_id, redirect_uri):
     :return: Session state value
     """
     parsed_uri = urlparse(redirect_uri)
-    rp_origin_url = "{uri.scheme}://{uri.netloc}".format(uri=parsed_uri)
+    # The origin as a browser tells it: no user info, lower case and no default port
+    netloc = parsed_uri.netloc.rpartition("@")[2].lower()
+    default_port = {"https": ":443", "http": ":80"}.get(parsed_uri.scheme)
+    if default_port and netloc.endswith(default_port):
+        netloc = netloc[: -len(default_port)]
+    rp_origin_url = "{}://{}".format(parsed_uri.scheme, netloc)
     session_str = client_id + " " + rp_origin_url + " " + opbs + " " + salt
     return hashlib.sha256(session_str.encode("utf-8")).hexdigest() + "." + salt
-- 
2.43.0


From b6c5af24b3c9706524c7fac0830ced526de1a945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:21 +0000
Subject: [PATCH 86/93] fix: get_session_info with both the grant and the
 authentication event raised TypeError

---
 src/oidcop/session/manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcop/session/manager.py b/src/oidcop/session/manager.py
index 0cc787c..5ff79d1 100644
--- a/src/oidcop/session/manager.py
+++ b/src/oidcop/session/manager.py
@@ -460,7 +460,7 @@ class SessionManager(Database):
 
         if authentication_event:
             if grant:
-                res["authentication_event"] = res["grant"]["authentication_event"]
+                res["authentication_event"] = res["grant"].authentication_event
             else:
                 _grant = self.get([_user_id, _client_id, _grant_id])
                 res["authentication_event"] = _grant.authentication_event
-- 
2.43.0


From fca32d1305016edfa3aefb2dc2ea21eef2d98f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:21 +0000
Subject: [PATCH 87/93] fix: get_spec returned the specification of inactive
 tokens

---
 src/oidcop/session/grant.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcop/session/grant.py b/src/oidcop/session/grant.py
index 35884d3..9ee6026 100644
--- a/src/oidcop/session/grant.py
+++ b/src/oidcop/session/grant.py
@@ -386,7 +386,7 @@ class Grant(Item):
                     self.revoke_token(based_on=t.value)
 
     def get_spec(self, token: SessionToken) -> Optional[dict]:
-        if self.is_active() is False or token.is_active is False:
+        if self.is_active() is False or token.is_active() is False:
             return None
 
         res = {}
-- 
2.43.0


From b90224b33e84a3dec5e874be69a2bd602b9d0a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:21 +0000
Subject: [PATCH 88/93] fix: a password with a colon was refused by HTTP basic
 user authentication

---
 src/oidcop/user_authn/user.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/user_authn/user.py b/src/oidcop/user_authn/user.py
index e3a25b2..ecfd7d9 100755
--- a/src/oidcop/user_authn/user.py
+++ b/src/oidcop/user_authn/user.py
@@ -232,7 +232,8 @@ class BasicAuthn(UserAuthnMethod):
         if authorization.startswith("Basic"):
             authorization = authorization[6:]
 
-        (user, pwd) = base64.b64decode(authorization).split(b":")
+        # the password may contain colons
+        (user, pwd) = base64.b64decode(authorization).split(b":", 1)
         user = unquote(user.decode())
         self.verify_password(user, pwd.decode())
         res = {"uid": user}
-- 
2.43.0


From f5dcbd1baf57f217397eac451954cc8e9daae337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:21 +0000
Subject: [PATCH 89/93] fix: symmetric key user authentication gave a user id
 that is bytes and failed when the data contained a colon

---
 src/oidcop/user_authn/user.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/oidcop/user_authn/user.py b/src/oidcop/user_authn/user.py
index ecfd7d9..6a08d1e 100755
--- a/src/oidcop/user_authn/user.py
+++ b/src/oidcop/user_authn/user.py
@@ -8,8 +8,10 @@ from typing import List
 from urllib.parse import unquote
 import warnings
 
+from cryptography.exceptions import InvalidTag
 from cryptography.hazmat.primitives.ciphers.aead import AESGCM
 from cryptojwt.jwt import JWT
+from cryptojwt.utils import as_unicode
 from oidcmsg.time_util import utc_time_sans_frac
 
 from oidcop.exception import FailedAuthentication
@@ -262,14 +264,19 @@ class SymKeyAuthn(UserAuthnMethod):
         :param kwargs: extra key word arguments
         :return:
         """
-        (encmsg, iv) = base64.b64decode(authorization).split(b":")
-        try:
-            aesgcm = AESGCM(self.symkey)
-            user = aesgcm.decrypt(iv, encmsg, None)
-        except (AssertionError, KeyError):  # pragma: no-cover
+        aesgcm = AESGCM(self.symkey)
+        _parts = base64.b64decode(authorization).split(b":")
+        # Both the encrypted message and the IV may contain the separator
+        for i in range(1, len(_parts)):
+            try:
+                user = aesgcm.decrypt(b":".join(_parts[i:]), b":".join(_parts[:i]), None)
+                break
+            except (InvalidTag, ValueError):
+                pass
+        else:
             raise FailedAuthentication("Decryption failed")
 
-        res = {"uid": user}
+        res = {"uid": as_unicode(user)}
         if cookie:
             res.update(self.cookie_info(cookie, client_id))
 
-- 
2.43.0


From 0be1611567d139184c25a5908e1ea3b2e018c67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:14 +0000
Subject: [PATCH 90/93] fix: an access token with a narrowed scope still got
 the claims of the whole grant at userinfo and introspection

---
 src/oidcop/oauth2/introspection.py |  4 +++-
 src/oidcop/oidc/userinfo.py        |  7 +++++--
 src/oidcop/session/grant.py        | 25 +++++++++++++++++++++++++
 3 files changed, 33 insertions(+), 3 deletions(-)

diff --git a/src/oidcop/oauth2/introspection.py b/src/oidcop/oauth2/introspection.py
index f59f159..841daf1 100644
--- a/src/oidcop/oauth2/introspection.py
+++ b/src/oidcop/oauth2/introspection.py
@@ -119,7 +119,9 @@ class Introspection(Endpoint):
         _resp.update(_info)
         _resp.weed()
 
-        _claims_restriction = grant.claims.get("introspection")
+        _claims_restriction = grant.claims_for_token(
+            _session_info["session_id"], _context, _token, "introspection"
+        )
         if _claims_restriction:
             user_info = _context.claims_interface.get_user_claims(
                 _session_info["user_id"], _claims_restriction
diff --git a/src/oidcop/oidc/userinfo.py b/src/oidcop/oidc/userinfo.py
index bd26c9b..a3e9283 100755
--- a/src/oidcop/oidc/userinfo.py
+++ b/src/oidcop/oidc/userinfo.py
@@ -148,8 +148,11 @@ class UserInfo(Endpoint):
             #     pass
 
         if allowed:
-            _claims = _grant.claims.get("userinfo")
-            info = self.server_get("endpoint_context").claims_interface.get_user_claims(
+            _context = self.server_get("endpoint_context")
+            _claims = _grant.claims_for_token(
+                _session_info["session_id"], _context, token, "userinfo"
+            )
+            info = _context.claims_interface.get_user_claims(
                 user_id=_session_info["user_id"], claims_restriction=_claims
             )
             info["sub"] = _grant.sub
diff --git a/src/oidcop/session/grant.py b/src/oidcop/session/grant.py
index 9ee6026..67f686a 100644
--- a/src/oidcop/session/grant.py
+++ b/src/oidcop/session/grant.py
@@ -194,6 +194,31 @@ class Grant(Item):
             return claims_match(_used_acr, _acr_request)
         return False
 
+    def claims_for_token(
+        self,
+        session_id: str,
+        endpoint_context,
+        token: SessionToken,
+        claims_release_point: str,
+    ) -> Optional[dict]:
+        """
+        The claims this grant releases to someone presenting the token. A token may have been
+        given a narrower scope than the grant, then the claims that came with the scopes it
+        doesn't have are left out.
+        """
+        _claims = self.claims.get(claims_release_point)
+        if not _claims or set(self.scope).issubset(token.scope):
+            return _claims
+
+        _interface = endpoint_context.claims_interface
+        _by_grant, _by_token = [
+            _interface.get_claims(
+                session_id, scopes=scopes, claims_release_point=claims_release_point
+            )
+            for scopes in (self.scope, token.scope)
+        ]
+        return {k: v for k, v in _claims.items() if k in _by_token or k not in _by_grant}
+
     def payload_arguments(
         self,
         session_id: str,
-- 
2.43.0


From f4264d8f9f4e2bf8ae1ce4e2e3dfccb9752db366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:24:33 +0000
Subject: [PATCH 91/93] fix: a token from the authorization endpoint is not
 bound by an earlier DPoP proof

---
 src/oidcop/oauth2/authorization.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index 9cb2a6a..9ea671a 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -854,6 +854,8 @@ class Authorization(Endpoint):
                 _code = None
 
             if "token" in rtype:
+                # No proof of possession is made at this endpoint
+                grant.extra.pop("dpop_jkt", None)
                 _access_token = self.mint_token(
                     token_class="access_token",
                     grant=grant,
-- 
2.43.0


From 3027b0f62a26e0694e68a6457842c1a5c5781909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:35:38 +0000
Subject: [PATCH 92/93] fix: the documented option code_challenge_method of the
 PKCE add-on was ignored

---
 src/oidcop/oidc/add_on/pkce.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/oidcop/oidc/add_on/pkce.py b/src/oidcop/oidc/add_on/pkce.py
index e3acf41..8a9ec63 100644
--- a/src/oidcop/oidc/add_on/pkce.py
+++ b/src/oidcop/oidc/add_on/pkce.py
@@ -139,9 +139,13 @@ def add_pkce_support(endpoint: Dict[str, Endpoint], **kwargs):
     authn_endpoint.post_parse_request.append(post_authn_parse)
     token_endpoint.post_parse_request.append(post_token_parse)
 
-    kwargs["code_challenge_methods"] = list(
-        kwargs.get("code_challenge_methods", CC_METHOD.keys())
-    )
+    # "code_challenge_method", a list or a space separated string, is the documented name
+    _methods = kwargs.get("code_challenge_methods", kwargs.get("code_challenge_method"))
+    if _methods is None:
+        _methods = CC_METHOD.keys()
+    elif isinstance(_methods, str):
+        _methods = _methods.split()
+    kwargs["code_challenge_methods"] = list(_methods)
     for method in kwargs["code_challenge_methods"]:
         if method not in CC_METHOD:
             raise ValueError("Unsupported method: {}".format(method))
-- 
2.43.0


From 06e51e2983bcf724dd5d52c29b6cd951db0e3efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:29:08 +0000
Subject: [PATCH 93/93] fix: configure_logging(debug=True) changed the given
 configuration and the module's default

---
 src/oidcop/logging.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/oidcop/logging.py b/src/oidcop/logging.py
index 10dfdc1..ac7a877 100755
--- a/src/oidcop/logging.py
+++ b/src/oidcop/logging.py
@@ -1,4 +1,5 @@
 """Common logging functions"""
+import copy
 import logging
 import os
 from logging.config import dictConfig
@@ -35,6 +36,8 @@ def configure_logging(
         config_source = "default"
 
     if debug:
+        # neither the defaults nor what was given are to be changed
+        config_dict = copy.deepcopy(config_dict)
         config_dict["root"]["level"] = "DEBUG"
 
     dictConfig(config_dict)
-- 
2.43.0

