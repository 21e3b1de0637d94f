From f109e28e9a093ecf7ac26b4df1ce4afde57efd3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:37 +0000
Subject: [PATCH 01/94] fix: a subordinate's fixed value must respect the
 superior's metadata policy

---
 src/fedservice/entity/function/policy.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/fedservice/entity/function/policy.py b/src/fedservice/entity/function/policy.py
index 34b7d21..5286afb 100644
--- a/src/fedservice/entity/function/policy.py
+++ b/src/fedservice/entity/function/policy.py
@@ -109,6 +109,26 @@ DO_POLICY = {
 }
 
 
+def verify_value(value, superior):
+    """
+    A value set by a subordinate overrides everything when the policy is applied, so it has to
+    fulfill what the superior demands.
+
+    :param value: The value a subordinate has set
+    :param superior: Superior policy
+    """
+    def _as_list(val):
+        return val if isinstance(val, list) else [val]
+
+    _values = _as_list(value)
+    for policy in ["subset_of", "one_of"]:
+        if policy in superior and any(v not in superior[policy] for v in _values):
+            raise PolicyError(f"value not within the superior's {policy}")
+    for policy in ["superset_of", "add"]:
+        if policy in superior and any(v not in _values for v in _as_list(superior[policy])):
+            raise PolicyError(f"value does not cover the superior's {policy}")
+
+
 def combine_claim_policy(superior, child):
     """
     Combine policy rules.
@@ -150,6 +170,9 @@ def combine_claim_policy(superior, child):
             if "subset_of" in comb_policy or "superset_of" in comb_policy:
                 raise PolicyError("one_of can not be combined with subset_of/superset_of")
 
+        if "value" in child_set:
+            verify_value(child["value"], superior)
+
         rule = {}
         for policy in comb_policy:
             rule[policy] = DO_POLICY[policy](superior, child, policy)
-- 
2.43.0


From c16c995dfeb0f18372a5fc60e01bcd02b93c778f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:37 +0000
Subject: [PATCH 02/94] fix: detect contradicting metadata policies also when
 the claim is essential

---
 src/fedservice/entity/function/policy.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fedservice/entity/function/policy.py b/src/fedservice/entity/function/policy.py
index 5286afb..ef507ed 100644
--- a/src/fedservice/entity/function/policy.py
+++ b/src/fedservice/entity/function/policy.py
@@ -177,6 +177,8 @@ def combine_claim_policy(superior, child):
         for policy in comb_policy:
             rule[policy] = DO_POLICY[policy](superior, child, policy)
 
+        # whether a claim is essential has no bearing on which values that are allowed
+        comb_policy = comb_policy.difference({"essential"})
         if comb_policy == {'superset_of', 'subset_of'}:
             # make sure the subset_of is a superset of superset_of.
             if set(rule['superset_of']).difference(set(rule['subset_of'])):
-- 
2.43.0


From 31f30c808c701fd1cc11c10a9d5d3f78354bb65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:37 +0000
Subject: [PATCH 03/94] fix: subset_of on a single valued claim compares with
 the operator's values

---
 src/fedservice/entity/function/policy_operator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fedservice/entity/function/policy_operator.py b/src/fedservice/entity/function/policy_operator.py
index 6580b9d..92f1967 100644
--- a/src/fedservice/entity/function/policy_operator.py
+++ b/src/fedservice/entity/function/policy_operator.py
@@ -82,8 +82,9 @@ class SubsetOf(PolicyOperator):
             if isinstance(metadata[claim], list):
                 _val = set(metadata_policy[claim][self.name]).intersection(set(metadata[claim]))
             else:
-                if metadata[claim] in metadata_policy[claim]:
-                    _val = metadata[claim]
+                # A single value stays a single value
+                if metadata[claim] in metadata_policy[claim][self.name]:
+                    return
                 else:
                     raise PolicyError(f"{metadata[claim]} not in allowed subset: {metadata_policy[claim]}")
 
-- 
2.43.0


From b15509432a11269b9255ac48ea8f47cb8bd4d428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:56 +0000
Subject: [PATCH 04/94] fix: a list of values does not fulfill a one_of policy

---
 src/fedservice/entity/function/policy_operator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fedservice/entity/function/policy_operator.py b/src/fedservice/entity/function/policy_operator.py
index 92f1967..2b63891 100644
--- a/src/fedservice/entity/function/policy_operator.py
+++ b/src/fedservice/entity/function/policy_operator.py
@@ -44,7 +44,7 @@ class OneOf(PolicyOperator):
     def __call__(self, claim, metadata, metadata_policy):
         if claim in metadata:
             if isinstance(metadata[claim], list):  # Should not be
-                return None
+                raise PolicyError(f"one_of can not be applied on a list of values: {metadata[claim]}")
             else:
                 if metadata[claim] in metadata_policy[claim][self.name]:
                     pass
-- 
2.43.0


From e1ad5819d909adb23ec663de540838a98b997839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:48 +0000
Subject: [PATCH 05/94] fix: every trust chain collector has its own
 trust_anchors

The default configuration, including its trust_anchors dictionary, was shared by all
entities in a process. A trust anchor added to one entity became trusted by all.
---
 src/fedservice/entity/function/trust_chain_collector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fedservice/entity/function/trust_chain_collector.py b/src/fedservice/entity/function/trust_chain_collector.py
index 6f3a9ab..a000610 100644
--- a/src/fedservice/entity/function/trust_chain_collector.py
+++ b/src/fedservice/entity/function/trust_chain_collector.py
@@ -75,7 +75,8 @@ class TrustChainCollector(Function):
                  **kwargs
                  ):
         Function.__init__(self, upstream_get)
-        self.trust_anchors = trust_anchors
+        # A private copy. The default configuration is shared between entities.
+        self.trust_anchors = dict(trust_anchors)
         self.allowed_delta = allowed_delta
         self.config_cache = ESCache(allowed_delta=allowed_delta)
         self.entity_statement_cache = ESCache(allowed_delta=allowed_delta)
-- 
2.43.0


From 2b67b869bbd1d4747c8db83f0d60888d01b57831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:48 +0000
Subject: [PATCH 06/94] fix: a trust chain has to end in one of the configured
 trust anchors

Any entity whose keys were in the key jar, which means any entity that has been part of
a chain before, was accepted as trust anchor.
---
 src/fedservice/entity/function/verifier.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fedservice/entity/function/verifier.py b/src/fedservice/entity/function/verifier.py
index 6f698d0..aeb7d24 100644
--- a/src/fedservice/entity/function/verifier.py
+++ b/src/fedservice/entity/function/verifier.py
@@ -25,7 +25,9 @@ class TrustChainVerifier(Function):
         payload = _jwt.jwt.payload()
         _federation_entity = get_federation_entity(self)
         if _federation_entity:
-            if payload['iss'] not in _federation_entity.keyjar:
+            # A Trust Anchor is allowed to regard itself as the anchor
+            if (payload['iss'] not in _federation_entity.trust_anchors and
+                    payload['iss'] != _federation_entity.entity_id):
                 logger.warning(
                     f"Trust chain ending in a trust anchor I do not know: {payload['iss']}", )
                 return False
-- 
2.43.0


From ffd9aed8a0de3c50a73076d5392c29763f87b34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:11 +0000
Subject: [PATCH 07/94] fix: verify each statement of a trust chain with the
 keys its superior vouches for

The keys of every statement in a chain were added to the shared federation key jar before
the chain was verified and the next statement was verified with anything the key jar had
for its issuer. Statements that did not link up, and keys picked up from chains that
failed, were hence accepted. Someone's statement could even add keys to a Trust Anchor.
---
 src/fedservice/entity/function/verifier.py | 106 ++++++++++++++-------
 1 file changed, 69 insertions(+), 37 deletions(-)

diff --git a/src/fedservice/entity/function/verifier.py b/src/fedservice/entity/function/verifier.py
index aeb7d24..1ac706e 100644
--- a/src/fedservice/entity/function/verifier.py
+++ b/src/fedservice/entity/function/verifier.py
@@ -3,6 +3,7 @@ from typing import Callable
 from typing import List
 
 from cryptojwt import KeyBundle
+from cryptojwt import KeyJar
 from cryptojwt.exception import MissingKey
 from cryptojwt.jws.jws import factory
 
@@ -59,51 +60,82 @@ class TrustChainVerifier(Function):
 
         n = len(entity_statement_list) - 1
         _keyjar = self.upstream_get("attribute", "keyjar")
+        _new_keys = []
         for entity_statement in entity_statement_list:
             _jwt = factory(entity_statement)
-            if _jwt:
-                logger.debug(f"JWS header: {_jwt.jwt.headers}", )
-                logger.debug(f"JWS payload: {_jwt.jwt.payload()}")
-                keys = _keyjar.get_jwt_verify_keys(_jwt.jwt)
-                if keys == []:
-                    logger.error(f'No keys matching: {_jwt.jwt.headers}')
-                    logger.debug(f"keyjar contains: {_keyjar}")
-                    raise MissingKey(f'No keys matching: {_jwt.jwt.headers}')
-
-                _key_spec = [f'{k.kty}:{k.use}:{k.kid}' for k in keys]
-                logger.debug("Possible verification keys: %s", _key_spec)
-                res = _jwt.verify_compact(keys=keys)
-                logger.debug("Verified entity statement: %s", res)
-                try:
-                    _jwks = res['jwks']
-                except KeyError:
-                    if len(ves) != n:
-                        raise ValueError('Missing signing JWKS')
-                else:
-                    _kb = KeyBundle(keys=_jwks['keys'])
-                    try:
-                        old = _keyjar.get_issuer_keys(res['sub'])
-                    except KeyError:
-                        _keyjar.add_kb(res['sub'], _kb)
-                    else:
-                        new = [k for k in _kb if k not in old]
-                        if new:
-                            _key_spec = [f'{k.kty}:{k.use}:{k.kid}' for k in new]
-                            logger.debug(
-                                "New keys added to the federation key jar for '{}': {}".format(
-                                    res['sub'], _key_spec)
-                            )
-                            # Only add keys to the KeyJar if they are not already there.
-                            _kb.set(new)
-                            _keyjar.add_kb(res['sub'], _kb)
-
-                ves.append(res)
+            if not _jwt:
+                logger.error("Not a signed JWT in the trust chain")
+                return []
+
+            logger.debug(f"JWS header: {_jwt.jwt.headers}", )
+            logger.debug(f"JWS payload: {_jwt.jwt.payload()}")
+            if ves:
+                # Must be issued by the subject of the statement above and be signed by one of
+                # the keys listed in that statement.
+                if _jwt.jwt.payload().get('iss') != ves[-1]['sub']:
+                    logger.error("Not issued by the subject of the superior's statement")
+                    return []
+                _issuer_keyjar = KeyJar()
+                _issuer_keyjar.add_kb(ves[-1]['sub'], _kb)
+            else:
+                _issuer_keyjar = _keyjar
+
+            keys = _issuer_keyjar.get_jwt_verify_keys(_jwt.jwt)
+            if keys == []:
+                logger.error(f'No keys matching: {_jwt.jwt.headers}')
+                logger.debug(f"keyjar contains: {_issuer_keyjar}")
+                raise MissingKey(f'No keys matching: {_jwt.jwt.headers}')
+
+            _key_spec = [f'{k.kty}:{k.use}:{k.kid}' for k in keys]
+            logger.debug("Possible verification keys: %s", _key_spec)
+            res = _jwt.verify_compact(keys=keys)
+            logger.debug("Verified entity statement: %s", res)
+            try:
+                _jwks = res['jwks']
+            except KeyError:
+                if len(ves) != n:
+                    raise ValueError('Missing signing JWKS')
+            else:
+                _kb = KeyBundle(keys=_jwks['keys'])
+                _new_keys.append((res['iss'], res['sub'], _kb))
+
+            ves.append(res)
 
         if ves and meets_restrictions(ves):
+            # Not until the whole chain is verified can the keys be used for other things
+            for issuer, subject, _kb in _new_keys:
+                self.store_keys(_keyjar, issuer, subject, _kb)
             return ves
         else:
             return []
 
+    def store_keys(self, keyjar, issuer, subject, key_bundle):
+        """
+        Adds the keys bound to an entity by a verified trust chain to the federation key jar.
+        """
+        _federation_entity = get_federation_entity(self)
+        if _federation_entity and issuer != subject:
+            if (subject in _federation_entity.trust_anchors or
+                    subject == _federation_entity.entity_id):
+                # No one else can add keys to a Trust Anchor or to me.
+                return
+
+        try:
+            old = keyjar.get_issuer_keys(subject)
+        except KeyError:
+            keyjar.add_kb(subject, key_bundle)
+        else:
+            new = [k for k in key_bundle if k not in old]
+            if new:
+                _key_spec = [f'{k.kty}:{k.use}:{k.kid}' for k in new]
+                logger.debug(
+                    "New keys added to the federation key jar for '{}': {}".format(
+                        subject, _key_spec)
+                )
+                # Only add keys to the KeyJar if they are not already there.
+                key_bundle.set(new)
+                keyjar.add_kb(subject, key_bundle)
+
     def trust_chain_expires_at(self, trust_chain):
         exp = -1
         for entity_statement in trust_chain:
-- 
2.43.0


From 797205c23f97f24f0cfb260d380eb911a31268ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:12 +0000
Subject: [PATCH 08/94] fix: verify the signature on an explicit registration
 response

The outcome of the verification of the OP's trust chains was ignored and the signature of
the response was never checked against the OP's federation keys, only against the keys in
the response itself.
---
 .../appclient/oauth2/registration.py          | 33 +++++++++++---
 src/fedservice/appclient/oidc/registration.py | 43 ++++++++++++++-----
 2 files changed, 58 insertions(+), 18 deletions(-)

diff --git a/src/fedservice/appclient/oauth2/registration.py b/src/fedservice/appclient/oauth2/registration.py
index bbe2e7d..e0f9a41 100644
--- a/src/fedservice/appclient/oauth2/registration.py
+++ b/src/fedservice/appclient/oauth2/registration.py
@@ -1,7 +1,10 @@
 import logging
 from typing import Optional
 
+from cryptojwt import KeyBundle
 from cryptojwt import KeyJar
+from cryptojwt.exception import JWKESTException
+from cryptojwt.jws.jws import factory
 from idpyoidc.client.exception import ResponseError
 from idpyoidc.client.oidc import registration
 from idpyoidc.client.rp_handler import RPHandler
@@ -120,15 +123,31 @@ class Registration(registration.Registration):
     def _get_trust_anchor_id(self, entity_statement):
         return entity_statement.get('trust_anchor_id')
 
-    def _signature_verifies(self, entity_id, trust_anchor, federation_entity):
-        _chains, _ = collect_trust_chains(self.upstream_get('unit'),
-                                          entity_id=entity_id,
-                                          stop_at=trust_anchor)
+    def _signature_verifies(self, entity_id, trust_anchor, federation_entity, resp):
+        _chains, _leaf_ec = collect_trust_chains(self.upstream_get('unit'),
+                                                 entity_id=entity_id,
+                                                 stop_at=trust_anchor)
         if not _chains:
             return False
 
-        _trust_chains = verify_trust_chains(federation_entity, _chains)
-        return True
+        for trust_chain in verify_trust_chains(federation_entity, _chains, _leaf_ec):
+            if trust_chain.anchor != trust_anchor:
+                continue
+
+            # The response must be signed by one of the federation keys of the entity
+            _keyjar = KeyJar()
+            _keyjar.add_kb(entity_id, KeyBundle(keys=trust_chain.verified_chain[-1]['jwks']['keys']))
+            _jws = factory(resp)
+            _keys = _keyjar.get_jwt_verify_keys(_jws.jwt)
+            if not _keys:
+                continue
+            try:
+                _jws.verify_compact(keys=_keys)
+            except JWKESTException as err:
+                logger.error(f"Registration response verification failed: {err}")
+            else:
+                return True
+        return False
 
     def parse_federation_registration_response(self, resp, **kwargs):
         """
@@ -161,7 +180,7 @@ class Registration(registration.Registration):
         else:
             # verify the signature on the response from the OP
             if not self._signature_verifies(payload["iss"], payload['trust_anchor_id'],
-                                            _federation_entity):
+                                            _federation_entity, resp):
                 raise SignatureFailure("Could not verify signature")
 
             # This is the trust chain from myself to the TA
diff --git a/src/fedservice/appclient/oidc/registration.py b/src/fedservice/appclient/oidc/registration.py
index aed99df..e52ca73 100644
--- a/src/fedservice/appclient/oidc/registration.py
+++ b/src/fedservice/appclient/oidc/registration.py
@@ -1,6 +1,10 @@
 import logging
 from typing import Optional
 
+from cryptojwt import KeyBundle
+from cryptojwt import KeyJar
+from cryptojwt.exception import JWKESTException
+from cryptojwt.jws.jws import factory
 from idpyoidc.client.exception import ResponseError
 from idpyoidc.client.oidc import registration
 from idpyoidc.message.oidc import RegistrationRequest
@@ -99,15 +103,31 @@ class Registration(registration.Registration):
     def _get_trust_anchor_id(self, entity_statement):
         return entity_statement.get('trust_anchor_id')
 
-    def _signature_verifies(self, entity_id, trust_anchor, federation_entity):
-        _chains, _ = collect_trust_chains(self.upstream_get('unit'),
-                                          entity_id=entity_id,
-                                          stop_at=trust_anchor)
+    def _signature_verifies(self, entity_id, trust_anchor, federation_entity, resp):
+        _chains, _leaf_ec = collect_trust_chains(self.upstream_get('unit'),
+                                                 entity_id=entity_id,
+                                                 stop_at=trust_anchor)
         if not _chains:
             return False
 
-        _trust_chains = verify_trust_chains(federation_entity, _chains)
-        return True
+        for trust_chain in verify_trust_chains(federation_entity, _chains, _leaf_ec):
+            if trust_chain.anchor != trust_anchor:
+                continue
+
+            # The response must be signed by one of the federation keys of the entity
+            _keyjar = KeyJar()
+            _keyjar.add_kb(entity_id, KeyBundle(keys=trust_chain.verified_chain[-1]['jwks']['keys']))
+            _jws = factory(resp)
+            _keys = _keyjar.get_jwt_verify_keys(_jws.jwt)
+            if not _keys:
+                continue
+            try:
+                _jws.verify_compact(keys=_keys)
+            except JWKESTException as err:
+                logger.error(f"Registration response verification failed: {err}")
+            else:
+                return True
+        return False
 
     def parse_federation_registration_response(self, resp, **kwargs):
         """
@@ -139,14 +159,15 @@ class Registration(registration.Registration):
         else:
             # verify the signature on the response from the OP
             if not self._signature_verifies(payload["iss"], payload['trust_anchor_id'],
-                                            _federation_entity):
+                                            _federation_entity, resp):
                 raise SignatureFailure("Could not verify signature")
 
             # This is the trust chain from the RP to the TA
-            _chains, _ = collect_trust_chains(self.upstream_get('unit'),
-                                              entity_id=self.upstream_get('attribute', 'entity_id'),
-                                              stop_at=payload['trust_anchor_id'])
-            _trust_chains = verify_trust_chains(_federation_entity, _chains, resp)
+            _chains, _leaf_ec = collect_trust_chains(
+                self.upstream_get('unit'),
+                entity_id=self.upstream_get('attribute', 'entity_id'),
+                stop_at=payload['trust_anchor_id'])
+            _trust_chains = verify_trust_chains(_federation_entity, _chains, _leaf_ec)
             # should only be one chain
             if len(_trust_chains) != 1:
                 raise SystemError(f"More then one chain ending in {payload['trust_anchor_id']}")
-- 
2.43.0


From 00684df1a51b1f0e9cc394a17366908dc10cf32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:23 +0000
Subject: [PATCH 09/94] fix: a registration response must be about the RP and
 relate to the chosen trust anchor

A response about another entity was accepted and the RP's metadata was calculated using a
trust chain to any trust anchor rather than the one the OP picked.
---
 src/fedservice/appclient/oauth2/registration.py | 6 ++++++
 src/fedservice/appclient/oidc/registration.py   | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/fedservice/appclient/oauth2/registration.py b/src/fedservice/appclient/oauth2/registration.py
index e0f9a41..0824679 100644
--- a/src/fedservice/appclient/oauth2/registration.py
+++ b/src/fedservice/appclient/oauth2/registration.py
@@ -168,6 +168,10 @@ class Registration(registration.Registration):
                 _federation_entity.function.trust_chain_collector.trust_anchors):
             raise ValueError("Trust anchor I don't trust")
 
+        # Is it about me ?
+        if payload['sub'] != self.upstream_get('attribute', 'entity_id'):
+            raise ValueError("Registration response about someone else")
+
         # This is where I should decide to use the metadata verification service or do it
         # all myself
         # Do I have the necessary Function/Service installed
@@ -187,6 +191,8 @@ class Registration(registration.Registration):
             _trust_chains = get_verified_trust_chains(self, entity_id=self.upstream_get('attribute',
                                                                                         'entity_id'))
 
+            _trust_chains = [tc for tc in _trust_chains if
+                             tc.anchor == payload['trust_anchor_id']]
             # should only be one chain
             if len(_trust_chains) != 1:
                 raise SystemError(f"More then one chain ending in {payload['trust_anchor_id']}")
diff --git a/src/fedservice/appclient/oidc/registration.py b/src/fedservice/appclient/oidc/registration.py
index e52ca73..57bdb3c 100644
--- a/src/fedservice/appclient/oidc/registration.py
+++ b/src/fedservice/appclient/oidc/registration.py
@@ -147,6 +147,10 @@ class Registration(registration.Registration):
             'trust_anchor_id'] not in _federation_entity.function.trust_chain_collector.trust_anchors:
             raise ValueError("Trust anchor I don't trust")
 
+        # Is it about me ?
+        if payload['sub'] != self.upstream_get('attribute', 'entity_id'):
+            raise ValueError("Registration response about someone else")
+
         # This is where I should decide to use the metadata verification service or do it
         # all myself
         # Do I have the necessary Function/Service installed
@@ -168,6 +172,8 @@ class Registration(registration.Registration):
                 entity_id=self.upstream_get('attribute', 'entity_id'),
                 stop_at=payload['trust_anchor_id'])
             _trust_chains = verify_trust_chains(_federation_entity, _chains, _leaf_ec)
+            _trust_chains = [tc for tc in _trust_chains if
+                             tc.anchor == payload['trust_anchor_id']]
             # should only be one chain
             if len(_trust_chains) != 1:
                 raise SystemError(f"More then one chain ending in {payload['trust_anchor_id']}")
-- 
2.43.0


From a0b7d3a12c54443907eb87d0c4e191dec4049590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:39 +0000
Subject: [PATCH 10/94] fix: a trust chain with an expired statement is not
 valid

The expiration time of the chain was calculated but nothing compared it with the current
time.
---
 src/fedservice/entity/function/verifier.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fedservice/entity/function/verifier.py b/src/fedservice/entity/function/verifier.py
index 1ac706e..2547ce5 100644
--- a/src/fedservice/entity/function/verifier.py
+++ b/src/fedservice/entity/function/verifier.py
@@ -101,6 +101,10 @@ class TrustChainVerifier(Function):
 
             ves.append(res)
 
+        if ves and TrustChain(exp=self.trust_chain_expires_at(ves)).is_expired():
+            logger.error("At least one of the statements in the trust chain has expired")
+            return []
+
         if ves and meets_restrictions(ves):
             # Not until the whole chain is verified can the keys be used for other things
             for issuer, subject, _kb in _new_keys:
-- 
2.43.0


From 107d04bcbd551e93e95ac5ab8dca61c8c1ec8415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:25 +0000
Subject: [PATCH 11/94] fix: enforce max_path_length

The limit a superior sets was never counted down, so it had no effect on chains of any
length.
---
 .../entity_statement/constraints.py           | 20 ++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/fedservice/entity_statement/constraints.py b/src/fedservice/entity_statement/constraints.py
index 289c34c..bd60913 100644
--- a/src/fedservice/entity_statement/constraints.py
+++ b/src/fedservice/entity_statement/constraints.py
@@ -136,16 +136,18 @@ def meets_restrictions(trust_chain: List[EntityStatement]) -> bool:
     }
 
     for statement in trust_chain[:-1]:  # All but the last
-        try:
+        if 'constraints' in statement:
             _constraints = statement['constraints']
-        except KeyError:
-            continue
-
-        current_max_path_length = calculate_path_length(_constraints, current_max_path_length,
-                                                        max_assigned)
-
-        if current_max_path_length < 0:
-            return False
+        else:
+            _constraints = {}
+
+        # A superior's limitation applies also if the subordinate doesn't say anything
+        if max_assigned or 'max_path_length' in _constraints:
+            current_max_path_length = calculate_path_length(_constraints, current_max_path_length,
+                                                            max_assigned)
+            max_assigned = True
+            if current_max_path_length < 0:
+                return False
 
         naming_constraints = update_naming_constraints(_constraints, naming_constraints)
 
-- 
2.43.0


From 15870f97f732b698dc0aa882c776af317e2c2a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:43 +0000
Subject: [PATCH 12/94] fix: all superiors' naming constraints apply to
 everyone below them

A subordinate could lift a superior's exclusion by stating a narrower one, its own
permitted list was ignored if it didn't narrow the superior's and statements without
constraints were not checked.
---
 .../entity_statement/constraints.py           | 62 ++++++++-----------
 1 file changed, 26 insertions(+), 36 deletions(-)

diff --git a/src/fedservice/entity_statement/constraints.py b/src/fedservice/entity_statement/constraints.py
index bd60913..035c5e6 100644
--- a/src/fedservice/entity_statement/constraints.py
+++ b/src/fedservice/entity_statement/constraints.py
@@ -130,47 +130,37 @@ def meets_restrictions(trust_chain: List[EntityStatement]) -> bool:
 
     current_max_path_length = 0
     max_assigned = False
-    naming_constraints = {
-        "permitted": None,
-        "excluded": None
-    }
+    naming_constraints = []  # What the superiors so far have stated
 
-    for statement in trust_chain[:-1]:  # All but the last
+    for statement in trust_chain:
         if 'constraints' in statement:
             _constraints = statement['constraints']
         else:
             _constraints = {}
 
-        # A superior's limitation applies also if the subordinate doesn't say anything
-        if max_assigned or 'max_path_length' in _constraints:
-            current_max_path_length = calculate_path_length(_constraints, current_max_path_length,
-                                                            max_assigned)
-            max_assigned = True
-            if current_max_path_length < 0:
-                return False
-
-        naming_constraints = update_naming_constraints(_constraints, naming_constraints)
-
-        # if explicitly excluded return False
-        if 'excluded' in naming_constraints and naming_constraints['excluded']:
-            if excluded(statement['sub'], naming_constraints['excluded']):
-                return False
-
-        # If there is a list of permitted it must be in there
-        if 'permitted' in naming_constraints and naming_constraints['permitted']:
-            if not permitted(statement['sub'], naming_constraints["permitted"]):
-                return False
-
-    # Now check the leaf entity
-    statement = trust_chain[-1]
-    # if explicitly excluded return False
-    if 'excluded' in naming_constraints and naming_constraints['excluded']:
-        if excluded(statement['sub'], naming_constraints['excluded']):
-            return False
-
-    # If there is a list of permitted it must be in there
-    if 'permitted' in naming_constraints and naming_constraints['permitted']:
-        if not permitted(statement['sub'], naming_constraints["permitted"]):
-            return False
+        # A superior's limitation applies also if the subordinate doesn't say anything.
+        if statement is not trust_chain[-1]:
+            if max_assigned or 'max_path_length' in _constraints:
+                current_max_path_length = calculate_path_length(_constraints,
+                                                                current_max_path_length,
+                                                                max_assigned)
+                max_assigned = True
+                if current_max_path_length < 0:
+                    return False
+
+        if 'naming_constraints' in _constraints and statement['iss'] != statement['sub']:
+            naming_constraints.append(_constraints['naming_constraints'])
+
+        # Everyone has to stay within what every one of its superiors have stated
+        for _naming in naming_constraints:
+            # if explicitly excluded return False
+            if 'excluded' in _naming and _naming['excluded']:
+                if excluded(statement['sub'], _naming['excluded']):
+                    return False
+
+            # If there is a list of permitted it must be in there
+            if 'permitted' in _naming and _naming['permitted']:
+                if not permitted(statement['sub'], _naming["permitted"]):
+                    return False
 
     return True
-- 
2.43.0


From b2b498b0b79e4952d2022932ac25a5fe617b69cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:43 +0000
Subject: [PATCH 13/94] fix: naming constraints with only one of permitted and
 excluded can be combined

KeyError if the subordinate's constraints did not contain both.
---
 src/fedservice/entity_statement/constraints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fedservice/entity_statement/constraints.py b/src/fedservice/entity_statement/constraints.py
index 035c5e6..e45684b 100644
--- a/src/fedservice/entity_statement/constraints.py
+++ b/src/fedservice/entity_statement/constraints.py
@@ -85,7 +85,7 @@ def add_constraints(new_constraints: dict, naming_constraints: dict):
 
             continue
         else:
-            if not new_constraints[key]:
+            if key not in new_constraints or not new_constraints[key]:
                 continue
 
         naming_constraints[key] = update_specs(new_constraints[key], naming_constraints[key])
-- 
2.43.0


From 27f6120885945a1a16736f613bbe34a88450d672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:18 +0000
Subject: [PATCH 14/94] fix: naming constraints are matched against host names

The port and path of an entity identifier were part of the comparison. An entity identifier
with a path was neither permitted nor excluded by any constraint, or by the wrong one.
---
 src/fedservice/entity_statement/constraints.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/fedservice/entity_statement/constraints.py b/src/fedservice/entity_statement/constraints.py
index e45684b..3eb23e4 100644
--- a/src/fedservice/entity_statement/constraints.py
+++ b/src/fedservice/entity_statement/constraints.py
@@ -36,9 +36,19 @@ def remove_scheme(url):
         raise ValueError('Wrong scheme: %s', url)
 
 
+def host_part(url):
+    """
+    Naming constraints are about host names. The port, the path and so on are of no importance.
+    """
+    _host = remove_scheme(url)
+    for _sep in ['/', '?', '#']:
+        _host = _host.split(_sep)[0]
+    return _host.split('@')[-1].split(':')[0].rstrip('.').lower()
+
+
 def more_specific(a, b):
-    a_part = remove_scheme(a).split('.')
-    b_part = remove_scheme(b).split('.')
+    a_part = host_part(a).split('.')
+    b_part = host_part(b).split('.')
     if len(a_part) >= len(b_part):
         a_part.reverse()
         b_part.reverse()
-- 
2.43.0


From 9b2c5127a2489c692289d6643bf0950685fc5f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:24 +0000
Subject: [PATCH 15/94] fix: only subordinate statements count when path
 lengths are calculated

---
 src/fedservice/entity_statement/constraints.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/fedservice/entity_statement/constraints.py b/src/fedservice/entity_statement/constraints.py
index 3eb23e4..b5245f7 100644
--- a/src/fedservice/entity_statement/constraints.py
+++ b/src/fedservice/entity_statement/constraints.py
@@ -143,13 +143,13 @@ def meets_restrictions(trust_chain: List[EntityStatement]) -> bool:
     naming_constraints = []  # What the superiors so far have stated
 
     for statement in trust_chain:
-        if 'constraints' in statement:
-            _constraints = statement['constraints']
-        else:
-            _constraints = {}
+        if statement['iss'] != statement['sub']:  # Entity configurations don't have constraints
+            if 'constraints' in statement:
+                _constraints = statement['constraints']
+            else:
+                _constraints = {}
 
-        # A superior's limitation applies also if the subordinate doesn't say anything.
-        if statement is not trust_chain[-1]:
+            # A superior's limitation applies also if the subordinate doesn't say anything.
             if max_assigned or 'max_path_length' in _constraints:
                 current_max_path_length = calculate_path_length(_constraints,
                                                                 current_max_path_length,
@@ -158,8 +158,8 @@ def meets_restrictions(trust_chain: List[EntityStatement]) -> bool:
                 if current_max_path_length < 0:
                     return False
 
-        if 'naming_constraints' in _constraints and statement['iss'] != statement['sub']:
-            naming_constraints.append(_constraints['naming_constraints'])
+            if 'naming_constraints' in _constraints:
+                naming_constraints.append(_constraints['naming_constraints'])
 
         # Everyone has to stay within what every one of its superiors have stated
         for _naming in naming_constraints:
-- 
2.43.0


From 20103a2fa684ea2ed6e1e3ac7356792691433123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:20 +0000
Subject: [PATCH 16/94] fix: someone else's expired trust mark must not hide a
 valid trust mark

FileDB.find() gave up when it met an expired trust mark, whoever it belonged to.
---
 src/fedservice/trust_mark_entity/__init__.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/fedservice/trust_mark_entity/__init__.py b/src/fedservice/trust_mark_entity/__init__.py
index 6c1ff10..73b08b2 100644
--- a/src/fedservice/trust_mark_entity/__init__.py
+++ b/src/fedservice/trust_mark_entity/__init__.py
@@ -36,12 +36,11 @@ class FileDB(object):
             for line in reversed(list(fp)):
                 _tmi = json.loads(line.rstrip())
 
-                if 'exp' in _tmi:
-                    now = utc_time_sans_frac()
-                    if now > _tmi["exp"]:
-                        return False
-
                 if self._match(sub, iat, _tmi):
+                    if 'exp' in _tmi:
+                        now = utc_time_sans_frac()
+                        if now > _tmi["exp"]:
+                            return False
                     return True
         return False
 
-- 
2.43.0


From 4bec1f027bc8152a20ce990f5d199e72f5111605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:13 +0000
Subject: [PATCH 17/94] fix: SimpleDB can hold more than one trust mark per
 trust mark id

Adding a trust mark with an id that had been used before raised AttributeError. A query
about an unknown trust mark id raised KeyError and the expiration time was ignored.
---
 src/fedservice/trust_mark_entity/__init__.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/fedservice/trust_mark_entity/__init__.py b/src/fedservice/trust_mark_entity/__init__.py
index 73b08b2..6fb1bfe 100644
--- a/src/fedservice/trust_mark_entity/__init__.py
+++ b/src/fedservice/trust_mark_entity/__init__.py
@@ -97,20 +97,21 @@ class SimpleDB(object):
 
     def add(self, tm_info: dict):
         if tm_info['id'] in self._db:
-            self._db[tm_info['id']].append({tm_info['sub']: tm_info})
+            self._db[tm_info['id']][tm_info['sub']] = tm_info
         else:
             self._db[tm_info['id']] = {tm_info["sub"]: tm_info}
 
     def list(self, trust_mark_id, sub: Optional[str] = ""):
+        _subs = list(self._db.get(trust_mark_id, {}).keys())
         if sub:
-            if self._db[trust_mark_id].get(sub, None):
-                return [sub]
-        elif trust_mark_id in self._db:
-            return self._db[trust_mark_id]
+            return [s for s in _subs if s == sub]
+        return _subs
 
     def find(self, trust_mark_id, sub: str, iat: Optional[int] = 0) -> bool:
-        _tmi = self._db[trust_mark_id].get(sub, None)
+        _tmi = self._db.get(trust_mark_id, {}).get(sub, None)
         if _tmi:
+            if 'exp' in _tmi and utc_time_sans_frac() > _tmi['exp']:
+                return False
             if iat:
                 if iat == _tmi["iat"]:
                     return True
-- 
2.43.0


From e3483ff8350ea582971341285feab075533a87e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:51 +0000
Subject: [PATCH 18/94] fix: the trust mark databases do not list expired trust
 marks, nor choke on unknown ids

---
 src/fedservice/trust_mark_entity/__init__.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/fedservice/trust_mark_entity/__init__.py b/src/fedservice/trust_mark_entity/__init__.py
index 6fb1bfe..d295d37 100644
--- a/src/fedservice/trust_mark_entity/__init__.py
+++ b/src/fedservice/trust_mark_entity/__init__.py
@@ -31,6 +31,9 @@ class FileDB(object):
         return False
 
     def find(self, trust_mark_id: str, sub: str, iat: Optional[int] = 0):
+        if trust_mark_id not in self.config:
+            return False
+
         with open(self.config[trust_mark_id], "r") as fp:
             # Get the last issued
             for line in reversed(list(fp)):
@@ -79,10 +82,10 @@ class FileDB(object):
                 for line in reversed(list(fp)):
                     _tmi = json.loads(line.rstrip())
                     if _tmi["sub"] not in res:
-                        if sub:
-                            if _tmi["sub"] == sub:
-                                res.append(_tmi["sub"])
-                        else:
+                        if sub and _tmi["sub"] != sub:
+                            continue
+                        # Only those that are still valid
+                        if self.find(trust_mark_id, _tmi["sub"]):
                             res.append(_tmi["sub"])
         except KeyError as err:
             pass
@@ -102,7 +105,8 @@ class SimpleDB(object):
             self._db[tm_info['id']] = {tm_info["sub"]: tm_info}
 
     def list(self, trust_mark_id, sub: Optional[str] = ""):
-        _subs = list(self._db.get(trust_mark_id, {}).keys())
+        # Only those that are still valid
+        _subs = [s for s in self._db.get(trust_mark_id, {}) if self.find(trust_mark_id, s)]
         if sub:
             return [s for s in _subs if s == sub]
         return _subs
-- 
2.43.0


From f86a5590b482695fcff5e4ff6950df2f7bd0dc6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:39 +0000
Subject: [PATCH 19/94] fix: trust chain collection must end also when
 authority hints form a loop

---
 src/fedservice/entity/function/trust_chain_collector.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fedservice/entity/function/trust_chain_collector.py b/src/fedservice/entity/function/trust_chain_collector.py
index a000610..7cc0a4b 100644
--- a/src/fedservice/entity/function/trust_chain_collector.py
+++ b/src/fedservice/entity/function/trust_chain_collector.py
@@ -244,7 +244,7 @@ class TrustChainCollector(Function):
         """
         superior = {}
         if seen is None:
-            seen = []
+            seen = [entity_id]
 
         logger.debug(f'Collect superiors to: {entity_id}')
         logger.debug(f'Collect based on: {entity_configuration}')
@@ -256,8 +256,10 @@ class TrustChainCollector(Function):
             return superior
 
         for authority in entity_configuration['authority_hints']:
-            if authority in seen:  # loop ?!
+            if authority in seen and not (
+                    authority == entity_id and authority in self.trust_anchors):  # loop ?!
                 logger.warning(f"Loop detected at {authority}")
+                continue
             superior[authority] = self.collect_branch(entity_id, authority, seen,
                                                       max_superiors, stop_at=stop_at)
 
-- 
2.43.0


From 78ed6d788a2945da23c51ccf2d0ef4b3e3068304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:42 +0000
Subject: [PATCH 20/94] fix: one broken trust chain must not prevent the use of
 the others

---
 src/fedservice/entity/function/__init__.py              | 7 ++++++-
 src/fedservice/entity/function/trust_chain_collector.py | 8 ++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/fedservice/entity/function/__init__.py b/src/fedservice/entity/function/__init__.py
index b5c9bf7..4b5ace5 100644
--- a/src/fedservice/entity/function/__init__.py
+++ b/src/fedservice/entity/function/__init__.py
@@ -107,7 +107,12 @@ def verify_trust_chains(unit, chains: List[List[str]], *entity_statements):
     for c in chains:
         if entity_statements:
             c.extend(entity_statements)
-        trust_chain = _verifier(c)
+        try:
+            trust_chain = _verifier(c)
+        except Exception as err:
+            # One broken trust chain must not prevent the use of the others
+            logger.error(f"Trust chain verification failed: {err}")
+            continue
         if trust_chain:
             res.append(trust_chain)
     return res
diff --git a/src/fedservice/entity/function/trust_chain_collector.py b/src/fedservice/entity/function/trust_chain_collector.py
index 7cc0a4b..58fc64e 100644
--- a/src/fedservice/entity/function/trust_chain_collector.py
+++ b/src/fedservice/entity/function/trust_chain_collector.py
@@ -260,8 +260,12 @@ class TrustChainCollector(Function):
                     authority == entity_id and authority in self.trust_anchors):  # loop ?!
                 logger.warning(f"Loop detected at {authority}")
                 continue
-            superior[authority] = self.collect_branch(entity_id, authority, seen,
-                                                      max_superiors, stop_at=stop_at)
+            try:
+                superior[authority] = self.collect_branch(entity_id, authority, seen,
+                                                          max_superiors, stop_at=stop_at)
+            except Exception as err:
+                # One misbehaving superior must not prevent the use of the others
+                logger.error(f"Could not collect '{authority}'s view of '{entity_id}': {err}")
 
         return superior
 
-- 
2.43.0


From 4795b7461008e97c3b5cb1429d34d05cb67a71bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:04 +0000
Subject: [PATCH 21/94] fix: a superior's entity configuration that is about to
 expire must not break collection

---
 src/fedservice/entity/function/trust_chain_collector.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fedservice/entity/function/trust_chain_collector.py b/src/fedservice/entity/function/trust_chain_collector.py
index 58fc64e..a1d124c 100644
--- a/src/fedservice/entity/function/trust_chain_collector.py
+++ b/src/fedservice/entity/function/trust_chain_collector.py
@@ -339,6 +339,9 @@ class TrustChainCollector(Function):
 
         if entity_statement:
             _entity_configuration = self.config_cache[authority]
+            if _entity_configuration is None:  # Not cached or about to expire
+                _entity_configuration = verify_self_signed_signature(
+                    self.get_entity_configuration(authority))
             return entity_statement, self.collect_tree(authority,
                                                        _entity_configuration,
                                                        stop_at=stop_at,
-- 
2.43.0


From b521d27491a03e3557c0735d7ef8d932828e80b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:35 +0000
Subject: [PATCH 22/94] fix: a cached entity configuration must be replaced
 before it expires

---
 src/fedservice/entity/function/trust_chain_collector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fedservice/entity/function/trust_chain_collector.py b/src/fedservice/entity/function/trust_chain_collector.py
index a1d124c..5651c35 100644
--- a/src/fedservice/entity/function/trust_chain_collector.py
+++ b/src/fedservice/entity/function/trust_chain_collector.py
@@ -352,7 +352,7 @@ class TrustChainCollector(Function):
 
     def too_old(self, statement):
         now = time.time()
-        if now >= statement["exp"] + self.allowed_delta:
+        if now >= statement["exp"] - self.allowed_delta:
             return True
         else:
             return False
-- 
2.43.0


From 7b8403326f9cf098a5247b2a3d1c8dbec384d774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:29 +0000
Subject: [PATCH 23/94] fix: a stored trust chain must not be used once it has
 expired

---
 src/fedservice/entity/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fedservice/entity/__init__.py b/src/fedservice/entity/__init__.py
index 1bac7c1..4cab228 100644
--- a/src/fedservice/entity/__init__.py
+++ b/src/fedservice/entity/__init__.py
@@ -267,7 +267,7 @@ class FederationEntity(Unit):
 
     def get_trust_chains(self, entity_id):
         _trust_chains = self.trust_chain.get(entity_id, None)
-        if _trust_chains is None:
+        if _trust_chains is None or any(tc.is_expired() for tc in _trust_chains):
             _trust_chains = get_verified_trust_chains(self, entity_id)
             if _trust_chains:
                 self.store_trust_chain(entity_id, _trust_chains)
@@ -284,7 +284,7 @@ class FederationEntity(Unit):
 
     def get_verified_metadata(self, entity_id: str, *args):
         _trust_chains = self.trust_chain.get(entity_id)
-        if _trust_chains is None:
+        if _trust_chains is None or any(tc.is_expired() for tc in _trust_chains):
             _trust_chains = get_verified_trust_chains(self, entity_id)
             if _trust_chains:
                 self.store_trust_chain(entity_id, _trust_chains)
-- 
2.43.0


From 1a6ac99bebcceb4980382ed01f709a6853a877b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:01 +0000
Subject: [PATCH 24/94] fix: pick stored trust chains by trust root priority

---
 src/fedservice/entity/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fedservice/entity/__init__.py b/src/fedservice/entity/__init__.py
index 4cab228..c088c94 100644
--- a/src/fedservice/entity/__init__.py
+++ b/src/fedservice/entity/__init__.py
@@ -236,7 +236,7 @@ class FederationEntity(Unit):
         elif self.context.tr_priority:
             # Go by priority
             for ta_id in self.context.tr_priority:
-                for ta_id in _tas:
+                if ta_id in _tas:
                     return _trust_chains[ta_id]
         return _trust_chains[_tas[0]]
 
-- 
2.43.0


From 150249c0772b74a7a0aa9063980ea0d3a17ac0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:34 +0000
Subject: [PATCH 25/94] fix: exporting a trust chain must not turn the stored
 chain around

---
 src/fedservice/entity_statement/statement.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fedservice/entity_statement/statement.py b/src/fedservice/entity_statement/statement.py
index bf40c6c..d73a2b7 100644
--- a/src/fedservice/entity_statement/statement.py
+++ b/src/fedservice/entity_statement/statement.py
@@ -87,7 +87,7 @@ class TrustChain(ImpExp):
         trust_chain claim in an authorization or explicit registration request.
         :return:
         """
-        _chain = self.verified_chain
+        _chain = self.verified_chain[:]
         _chain.reverse()
         return _chain
 
-- 
2.43.0


From f5533db88ded87328d72d07481e97cf0cfdeb878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:08 +0000
Subject: [PATCH 26/94] fix: a stand alone client picks stored trust chains by
 trust root priority

---
 src/fedservice/appclient/stand_alone_client_entity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fedservice/appclient/stand_alone_client_entity.py b/src/fedservice/appclient/stand_alone_client_entity.py
index 0b9ae28..0ed0da5 100644
--- a/src/fedservice/appclient/stand_alone_client_entity.py
+++ b/src/fedservice/appclient/stand_alone_client_entity.py
@@ -143,7 +143,7 @@ class StandAloneClientEntity(ClientEntity):
         elif federation_entity.context.tr_priority:
             # Go by priority
             for ta_id in federation_entity.context.tr_priority:
-                for ta_id in _tas:
+                if ta_id in _tas:
                     return _trust_chains[ta_id]
         return _trust_chains[_tas[0]]
 
-- 
2.43.0


From c971ceb97103e06938b006cd0b804c487289c327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:54 +0000
Subject: [PATCH 27/94] fix: fetching a subordinate statement must not change
 what is registered about the subordinate

---
 src/fedservice/entity/server/fetch.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fedservice/entity/server/fetch.py b/src/fedservice/entity/server/fetch.py
index ab9f8f0..6a7dd01 100644
--- a/src/fedservice/entity/server/fetch.py
+++ b/src/fedservice/entity/server/fetch.py
@@ -50,6 +50,8 @@ class Fetch(Endpoint):
                 logger.debug(f"Known subordinates: {list(_server.subordinate.keys())}")
                 raise UnknownEntity(_sub)
 
+            # What's registered must not be changed by what's added below
+            _response = dict(_response)
             if not 'authority_hints' in _response:
                 # If nothing specified add myself
                 _response["authority_hints"] = [_issuer]
-- 
2.43.0


From bf426e0e3f52b149cff793d27f42bd4db7144272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:27 +0000
Subject: [PATCH 28/94] fix: an entity must not issue statements in someone
 else's name

---
 src/fedservice/entity/server/fetch.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fedservice/entity/server/fetch.py b/src/fedservice/entity/server/fetch.py
index 6a7dd01..a8a727c 100644
--- a/src/fedservice/entity/server/fetch.py
+++ b/src/fedservice/entity/server/fetch.py
@@ -29,6 +29,9 @@ class Fetch(Endpoint):
         _issuer = request.get("iss")
         if not _issuer:
             _issuer = self.upstream_get('attribute','entity_id')
+        elif _issuer != self.upstream_get('attribute','entity_id'):
+            # Can not make statements in someone else's name
+            raise UnknownEntity(_issuer)
 
         _sub = request.get("sub")
         _keyjar = self.upstream_get('attribute', 'keyjar')
-- 
2.43.0


From c47d82b6b1aaf2abee0f00be3fc73cb2bedff0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:50 +0000
Subject: [PATCH 29/94] fix: never present my own keys as a subordinate's

---
 src/fedservice/entity/server/fetch.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fedservice/entity/server/fetch.py b/src/fedservice/entity/server/fetch.py
index a8a727c..a2f8fa9 100644
--- a/src/fedservice/entity/server/fetch.py
+++ b/src/fedservice/entity/server/fetch.py
@@ -52,6 +52,9 @@ class Fetch(Endpoint):
                 logger.debug(f"Unknown subordinate: {_sub}")
                 logger.debug(f"Known subordinates: {list(_server.subordinate.keys())}")
                 raise UnknownEntity(_sub)
+            if "jwks" not in _response:
+                # My own keys would be used
+                raise UnknownEntity(f"No keys registered for {_sub}")
 
             # What's registered must not be changed by what's added below
             _response = dict(_response)
-- 
2.43.0


From 7064ee044380b4a4b9d2a992e3bef04a74271021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:21 +0000
Subject: [PATCH 30/94] fix: trust marks kept in a file are published like the
 others

---
 src/fedservice/entity/server/entity_configuration.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/fedservice/entity/server/entity_configuration.py b/src/fedservice/entity/server/entity_configuration.py
index b3fea94..4d7baa9 100644
--- a/src/fedservice/entity/server/entity_configuration.py
+++ b/src/fedservice/entity/server/entity_configuration.py
@@ -1,4 +1,3 @@
-from typing import Callable
 from typing import Optional
 from typing import Union
 
@@ -39,10 +38,7 @@ class EntityConfiguration(Endpoint):
             _metadata = _fed_entity.get_metadata()
 
         if _fed_entity.context.trust_marks:
-            if isinstance(_fed_entity.context.trust_marks, Callable):
-                args = {"trust_marks": _fed_entity.context.get_trust_marks()}
-            else:
-                args = {"trust_marks": _fed_entity.context.trust_marks}
+            args = {"trust_marks": _fed_entity.context.get_trust_marks()}
         else:
             args = {}
 
-- 
2.43.0


From 28ddae30542d758c319030786bfe4e4194e82fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:54 +0000
Subject: [PATCH 31/94] fix: a resolve response must not outlive the trust
 chain it is based on

---
 src/fedservice/entity/server/resolve.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fedservice/entity/server/resolve.py b/src/fedservice/entity/server/resolve.py
index 7428323..6b599f9 100644
--- a/src/fedservice/entity/server/resolve.py
+++ b/src/fedservice/entity/server/resolve.py
@@ -2,6 +2,7 @@ import logging
 from typing import Optional
 from typing import Union
 
+from cryptojwt.jwt import utc_time_sans_frac
 from idpyoidc.message import Message
 from idpyoidc.message import oidc
 from idpyoidc.server.endpoint import Endpoint
@@ -55,6 +56,8 @@ class Resolve(Endpoint):
                                        sub=request["sub"],
                                        key_jar=_federation_entity.get_attribute('keyjar'),
                                        metadata=metadata,
+                                       lifetime=0,
+                                       exp=min(_chain.exp, utc_time_sans_frac() + 86400),
                                        trust_chain=trust_chain)
         return {'response_args': _jws}
 
-- 
2.43.0


From e99140aabbadb62d68337b7539ef57d2bd1b0a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:25 +0000
Subject: [PATCH 32/94] fix: subordinates in a listing match all of the filters

---
 src/fedservice/entity/server/list.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/fedservice/entity/server/list.py b/src/fedservice/entity/server/list.py
index 921f697..caec71a 100644
--- a/src/fedservice/entity/server/list.py
+++ b/src/fedservice/entity/server/list.py
@@ -58,18 +58,21 @@ class List(Endpoint):
             subordinate_conf = None
             # I know about entity_types and intermediate or not from the registration
             for entity_id, item in _db.items():
-                if "intermediate" in request and request["intermediate"]:
-                    if "intermediate" in item and item["intermediate"]:
-                        matched_entity_ids.add(entity_id)
-                        continue
+                if request.get("intermediate") and not item.get("intermediate"):
+                    continue
                 if "entity_type" in request:
-                    if request["entity_type"] in item["entity_type"]:
-                        matched_entity_ids.add(entity_id)
+                    _types = item.get("entity_types", item.get("entity_type", []))
+                    if isinstance(_types, str):
+                        _types = [_types]
+                    if request["entity_type"] not in _types:
+                        continue
+                matched_entity_ids.add(entity_id)
 
             # I don't expect to know about trust marks from the registration
             if "trust_marked" in request or "trust_mark_id" in request:
                 subordinate_conf = self.collect_subordinates()
-                matched_entity_ids.update(self.filter(subordinates=subordinate_conf, **request))
+                matched_entity_ids.intersection_update(
+                    self.filter(subordinates=subordinate_conf, **request))
 
             if self.extended and subordinate_conf:
                 return {"response_msg": json.dumps({id: subordinate_conf[id] for id in
-- 
2.43.0


From 12e09c8fc4ab3cff65bcf1d20705aa63e1369ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:30 +0000
Subject: [PATCH 33/94] fix: filter subordinates on the trust marks they
 publish

---
 src/fedservice/entity/server/list.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/fedservice/entity/server/list.py b/src/fedservice/entity/server/list.py
index caec71a..3eb0ca2 100644
--- a/src/fedservice/entity/server/list.py
+++ b/src/fedservice/entity/server/list.py
@@ -7,6 +7,8 @@ from idpyoidc.key_import import import_jwks
 from idpyoidc.message import oidc
 from idpyoidc.server.endpoint import Endpoint
 
+from fedservice.entity.function import get_payload
+
 logger = logging.getLogger(__name__)
 
 
@@ -21,6 +23,13 @@ class List(Endpoint):
         Endpoint.__init__(self, upstream_get, **kwargs)
         self.extended = extended
 
+    @staticmethod
+    def trust_mark_id(trust_mark):
+        # Trust marks are normally signed JWTs
+        if isinstance(trust_mark, str):
+            trust_mark = get_payload(trust_mark)
+        return trust_mark['id']
+
     def filter(self,
                subordinates: dict,
                entity_type: str = '',
@@ -29,21 +38,17 @@ class List(Endpoint):
                **kwargs):
         match = []
         for entity_id, conf in subordinates.items():
-            matched = False
+            matched = True
             if entity_type:
-                if entity_type in conf['metadata']:
-                    matched = True
+                if entity_type not in conf['metadata']:
+                    matched = False
             if trust_marked:
-                if 'trust_marks' in conf:
-                    matched = True
-                else:
+                if not conf.get('trust_marks'):
                     matched = False
             if trust_mark_id:
-                trust_marks = conf.get('trust_marks')
-                matched = False
-                for trust_mark in trust_marks:
-                    if trust_mark['id'] == trust_mark_id:
-                        matched = True
+                _ids = [self.trust_mark_id(tm) for tm in conf.get('trust_marks', [])]
+                if trust_mark_id not in _ids:
+                    matched = False
 
             if matched:
                 match.append(entity_id)
-- 
2.43.0


From 1386aaa9ffb4218b6f1d50a24603f4ad45f7edff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:05 +0000
Subject: [PATCH 34/94] fix: one unreachable or misbehaving subordinate must
 not break listing the others

---
 src/fedservice/entity/server/list.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/fedservice/entity/server/list.py b/src/fedservice/entity/server/list.py
index 3eb0ca2..965f439 100644
--- a/src/fedservice/entity/server/list.py
+++ b/src/fedservice/entity/server/list.py
@@ -26,9 +26,13 @@ class List(Endpoint):
     @staticmethod
     def trust_mark_id(trust_mark):
         # Trust marks are normally signed JWTs
-        if isinstance(trust_mark, str):
-            trust_mark = get_payload(trust_mark)
-        return trust_mark['id']
+        try:
+            if isinstance(trust_mark, str):
+                trust_mark = get_payload(trust_mark)
+            return trust_mark['id']
+        except Exception as err:
+            logger.error(f"Not a trust mark: {err}")
+            return None
 
     def filter(self,
                subordinates: dict,
@@ -93,10 +97,14 @@ class List(Endpoint):
         sub = {}
         for entity_id, conf in _federation_entity.server.subordinate.items():
             #  get entity configuration for subordinate
-            _entity_configuration = _collector.get_entity_configuration(entity_id)
-            # Verify signature with the keys I have
-            keyjar = import_jwks(keyjar, conf['jwks'], entity_id)
-            _jwt = JWT(key_jar=keyjar)
-            _ec = _jwt.unpack(_entity_configuration)
+            try:
+                _entity_configuration = _collector.get_entity_configuration(entity_id)
+                # Verify signature with the keys I have
+                keyjar = import_jwks(keyjar, conf['jwks'], entity_id)
+                _jwt = JWT(key_jar=keyjar)
+                _ec = _jwt.unpack(_entity_configuration)
+            except Exception as err:
+                logger.error(f"Could not get hold of the entity configuration of {entity_id}: {err}")
+                continue
             sub[entity_id] = _ec
         return sub
-- 
2.43.0


From fdfe37ceee0e939a2aa70bdace7828084dab244c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:51 +0000
Subject: [PATCH 35/94] fix: resolving must also work with what is not cached
 any more

---
 src/fedservice/entity/server/resolve.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/fedservice/entity/server/resolve.py b/src/fedservice/entity/server/resolve.py
index 6b599f9..a560b4a 100644
--- a/src/fedservice/entity/server/resolve.py
+++ b/src/fedservice/entity/server/resolve.py
@@ -49,8 +49,11 @@ class Resolve(Endpoint):
         else:
             metadata = _chain.metadata
 
-        trust_chain = _federation_entity.function.trust_chain_collector.get_chain(
-            _chain.iss_path, _trust_anchor, kwargs.get("with_ta_ec"))
+        # The statements that were verified, the leaf's entity configuration first
+        trust_chain = _chain.chain[::-1]
+        if kwargs.get("with_ta_ec"):
+            _collector = _federation_entity.function.trust_chain_collector
+            trust_chain.append(_collector.get_entity_configuration(_trust_anchor))
 
         _jws = create_entity_statement(_federation_entity.entity_id,
                                        sub=request["sub"],
-- 
2.43.0


From 36d3ba7e066b8450d5524a1d873903e7aa5b3dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:13 +0000
Subject: [PATCH 36/94] fix: a provided trust chain has to be about the client

---
 src/fedservice/appserver/oauth2/authorization.py        | 3 +++
 src/fedservice/appserver/oauth2/pushed_authorization.py | 3 +++
 src/fedservice/appserver/oidc/authorization.py          | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/src/fedservice/appserver/oauth2/authorization.py b/src/fedservice/appserver/oauth2/authorization.py
index 03e3ab8..ed30614 100644
--- a/src/fedservice/appserver/oauth2/authorization.py
+++ b/src/fedservice/appserver/oauth2/authorization.py
@@ -54,6 +54,9 @@ class Authorization(authorization.Authorization):
             # So I get the TA's entity statement first
             provided_trust_chain.reverse()
             trust_chains = verify_trust_chains(self, [provided_trust_chain])
+            # The trust chain has to be about the client
+            trust_chains = [tc for tc in trust_chains if
+                            tc.iss_path[0] == tc.verified_chain[-1]['sub'] == entity_id]
         else:
             chains, signed_entity_configuration = collect_trust_chains(self, entity_id)
             trust_chains = verify_trust_chains(self, chains, signed_entity_configuration)
diff --git a/src/fedservice/appserver/oauth2/pushed_authorization.py b/src/fedservice/appserver/oauth2/pushed_authorization.py
index c35b1b5..4983593 100644
--- a/src/fedservice/appserver/oauth2/pushed_authorization.py
+++ b/src/fedservice/appserver/oauth2/pushed_authorization.py
@@ -47,6 +47,9 @@ class PushedAuthorization(Authorization):
             # So I get the TA's entity statement first
             provided_trust_chain.reverse()
             trust_chains = verify_trust_chains(self, [provided_trust_chain])
+            # The trust chain has to be about the client
+            trust_chains = [tc for tc in trust_chains if
+                            tc.iss_path[0] == tc.verified_chain[-1]['sub'] == entity_id]
             trust_chains = apply_policies(self, trust_chains)
         else:
             trust_chains = get_verified_trust_chains(self, entity_id)
diff --git a/src/fedservice/appserver/oidc/authorization.py b/src/fedservice/appserver/oidc/authorization.py
index e4e1ae0..0ec18ab 100644
--- a/src/fedservice/appserver/oidc/authorization.py
+++ b/src/fedservice/appserver/oidc/authorization.py
@@ -54,6 +54,9 @@ class Authorization(authorization.Authorization):
             # So I get the TA's entity statement first
             provided_trust_chain.reverse()
             trust_chains = verify_trust_chains(self, [provided_trust_chain])
+            # The trust chain has to be about the client
+            trust_chains = [tc for tc in trust_chains if
+                            tc.iss_path[0] == tc.verified_chain[-1]['sub'] == client_entity_id]
             trust_chains = apply_policies(self, trust_chains)
         else:
             trust_chains = get_verified_trust_chains(self, client_entity_id)
-- 
2.43.0


From 353b1824048c3417c5e9c32d59363569acfba8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:24 +0000
Subject: [PATCH 37/94] fix: an automatic OAuth2 registration must not be used
 once the trust chain has expired

---
 src/fedservice/appserver/oauth2/authorization.py       | 10 +++++++++-
 .../appserver/oauth2/pushed_authorization.py           | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/fedservice/appserver/oauth2/authorization.py b/src/fedservice/appserver/oauth2/authorization.py
index ed30614..f9b1bef 100644
--- a/src/fedservice/appserver/oauth2/authorization.py
+++ b/src/fedservice/appserver/oauth2/authorization.py
@@ -2,6 +2,7 @@ import logging
 from typing import List
 from typing import Optional
 
+from cryptojwt.jwt import utc_time_sans_frac
 from idpyoidc.message import oauth2
 from idpyoidc.message.oauth2 import OauthClientMetadata
 from idpyoidc.node import topmost_unit
@@ -85,15 +86,22 @@ class Authorization(authorization.Authorization):
         response_info = _registration.non_fed_process_request(req=req, **kwargs)
 
         try:
-            return response_info["response_args"]["client_id"]
+            client_id = response_info["response_args"]["client_id"]
         except KeyError:
             return None
 
+        op.context.cdb[client_id]["trust_chain_expires"] = trust_chain.exp
+        return client_id
+
     def client_authentication(self, request, auth=None, **kwargs):
         _cid = request["client_id"]
         _context = self.upstream_get("context")
         # If this is a registered client then this should return some info
         client_info = _context.cdb.get(_cid)
+        if client_info and 0 < client_info.get("trust_chain_expires", 0) < utc_time_sans_frac():
+            # Automatically registered based on a trust chain that has expired
+            del _context.cdb[_cid]
+            client_info = None
         if client_info is None:
             if 'automatic' in _context.provider_info.get('client_registration_types_supported'):
                 # try the federation way
diff --git a/src/fedservice/appserver/oauth2/pushed_authorization.py b/src/fedservice/appserver/oauth2/pushed_authorization.py
index 4983593..1704e80 100644
--- a/src/fedservice/appserver/oauth2/pushed_authorization.py
+++ b/src/fedservice/appserver/oauth2/pushed_authorization.py
@@ -3,6 +3,7 @@ from typing import List
 
 from fedservice.appserver import import_client_keys
 from fedservice.entity.function import get_verified_trust_chains
+from cryptojwt.jwt import utc_time_sans_frac
 from idpyoidc.message import oauth2
 from idpyoidc.node import topmost_unit
 from idpyoidc.server.oauth2.authorization import Authorization
@@ -78,15 +79,22 @@ class PushedAuthorization(Authorization):
         response_info = _registration.non_fed_process_request(req=req, **kwargs)
 
         try:
-            return response_info["response_args"]["client_id"]
+            client_id = response_info["response_args"]["client_id"]
         except KeyError:
             return None
 
+        op.context.cdb[client_id]["trust_chain_expires"] = trust_chain.exp
+        return client_id
+
     def client_authentication(self, request, auth=None, **kwargs):
         _cid = request["client_id"]
         _context = self.upstream_get("context")
         # If this is a registered client then this should return some info
         client_info = _context.cdb.get(_cid)
+        if client_info and 0 < client_info.get("trust_chain_expires", 0) < utc_time_sans_frac():
+            # Automatically registered based on a trust chain that has expired
+            del _context.cdb[_cid]
+            client_info = None
         if client_info is None:
             if 'automatic' in _context.provider_info.get('client_registration_types_supported'):
                 # try the federation way
-- 
2.43.0


From df18e0ef291b82a8092136ba00e1f675d8389078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:34 +0000
Subject: [PATCH 38/94] fix: automatically registered OAuth2 clients do not
 expire with a secret they never got

---
 src/fedservice/appserver/oauth2/authorization.py        | 1 +
 src/fedservice/appserver/oauth2/pushed_authorization.py | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fedservice/appserver/oauth2/authorization.py b/src/fedservice/appserver/oauth2/authorization.py
index f9b1bef..f968df0 100644
--- a/src/fedservice/appserver/oauth2/authorization.py
+++ b/src/fedservice/appserver/oauth2/authorization.py
@@ -80,6 +80,7 @@ class Authorization(authorization.Authorization):
         req['client_id'] = entity_id
         kwargs = {}
         kwargs['new_id'] = self.new_client_id
+        kwargs["set_secret"] = False
 
         op = topmost_unit(self)['oauth_authorization_server']
         _registration = op.get_endpoint("registration")
diff --git a/src/fedservice/appserver/oauth2/pushed_authorization.py b/src/fedservice/appserver/oauth2/pushed_authorization.py
index 1704e80..2a9b706 100644
--- a/src/fedservice/appserver/oauth2/pushed_authorization.py
+++ b/src/fedservice/appserver/oauth2/pushed_authorization.py
@@ -70,7 +70,7 @@ class PushedAuthorization(Authorization):
 
         req = OauthClientMetadata(**_metadata)
         req['client_id'] = entity_id
-        kwargs = {}
+        kwargs = {"set_secret": False}
         if self.new_client_id:
             kwargs['new_id'] = self.new_client_id
 
-- 
2.43.0


From c85d0c52cbe4a4349067e466067b0caf17abfcad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:22 +0000
Subject: [PATCH 39/94] fix: the OP must register what the trust chain to the
 registration request yields

---
 src/fedservice/appserver/oidc/registration.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/fedservice/appserver/oidc/registration.py b/src/fedservice/appserver/oidc/registration.py
index a87f860..8793aa7 100644
--- a/src/fedservice/appserver/oidc/registration.py
+++ b/src/fedservice/appserver/oidc/registration.py
@@ -5,7 +5,9 @@ from idpyoidc.message.oidc import RegistrationRequest
 from idpyoidc.server.oidc import registration
 
 from fedservice import save_trust_chains
+from fedservice.entity.function import apply_policies
 from fedservice.entity.function import get_verified_trust_chains
+from fedservice.entity.function import verify_trust_chains
 from fedservice.entity.function.trust_chain_collector import verify_self_signed_signature
 from fedservice.entity.utils import get_federation_entity
 
@@ -46,6 +48,10 @@ class Registration(registration.Registration):
 
         # Collect trust chains for client
         _trust_chains = get_verified_trust_chains(self, entity_id=payload['sub'])
+        # The request must be what comes last in the chains
+        _trust_chains = verify_trust_chains(
+            self, [tc.chain[:-1] + [request] for tc in _trust_chains])
+        _trust_chains = apply_policies(self, _trust_chains)
         if not _trust_chains:
             raise NoTrustedChains(f"No trust chains for {payload['sub']}")
 
@@ -53,7 +59,7 @@ class Registration(registration.Registration):
         trust_chain = _federation_entity.pick_trust_chain(_trust_chains)
         _federation_entity.trust_chain_anchor = trust_chain.anchor
 
-        req = RegistrationRequest(**payload["metadata"][opponent_entity_type])
+        req = RegistrationRequest(**trust_chain.metadata[opponent_entity_type])
         req["client_id"] = payload['sub']
         # Perform non-federation registration
         response_info = self.non_fed_process_request(req, **kwargs)
-- 
2.43.0


From d82fbf3b97c2f1e8201bd3385f70abb78ed7a4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:18 +0000
Subject: [PATCH 40/94] fix: automatic registration works also when clients are
 given new client ids

---
 src/fedservice/appserver/oauth2/authorization.py | 3 ++-
 src/fedservice/appserver/oidc/authorization.py   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fedservice/appserver/oauth2/authorization.py b/src/fedservice/appserver/oauth2/authorization.py
index f968df0..070f9c1 100644
--- a/src/fedservice/appserver/oauth2/authorization.py
+++ b/src/fedservice/appserver/oauth2/authorization.py
@@ -117,7 +117,8 @@ class Authorization(authorization.Authorization):
                     logger.debug('Automatic registration done')
                     if registered_client_id != _cid:
                         request["client_id"] = registered_client_id
-                        kwargs["also_known_as"] = {_cid: registered_client_id}
+                        kwargs["also_known_as"] = {_cid: registered_client_id,
+                                                   registered_client_id: registered_client_id}
                         client_info = _context.cdb[registered_client_id]
                         _context.cdb[_cid] = client_info
                         client_info['entity_id'] = _cid
diff --git a/src/fedservice/appserver/oidc/authorization.py b/src/fedservice/appserver/oidc/authorization.py
index 0ec18ab..0bcb324 100644
--- a/src/fedservice/appserver/oidc/authorization.py
+++ b/src/fedservice/appserver/oidc/authorization.py
@@ -117,7 +117,8 @@ class Authorization(authorization.Authorization):
                     _context.cdb[registered_client_id]["automatic_registered"] = True
                     if registered_client_id != _cid:
                         request["client_id"] = registered_client_id
-                        kwargs["also_known_as"] = {_cid: registered_client_id}
+                        kwargs["also_known_as"] = {_cid: registered_client_id,
+                                                   registered_client_id: registered_client_id}
                         client_info = _context.cdb[registered_client_id]
                         _context.cdb[_cid] = client_info
                         client_info['entity_id'] = _cid
-- 
2.43.0


From f39b00133541a4e90aaaf10eea18b41071aae2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:03 +0000
Subject: [PATCH 41/94] fix: a registration response that has expired must not
 be used

---
 src/fedservice/appclient/oauth2/registration.py | 4 ++++
 src/fedservice/appclient/oidc/registration.py   | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/fedservice/appclient/oauth2/registration.py b/src/fedservice/appclient/oauth2/registration.py
index 0824679..40854de 100644
--- a/src/fedservice/appclient/oauth2/registration.py
+++ b/src/fedservice/appclient/oauth2/registration.py
@@ -5,6 +5,7 @@ from cryptojwt import KeyBundle
 from cryptojwt import KeyJar
 from cryptojwt.exception import JWKESTException
 from cryptojwt.jws.jws import factory
+from cryptojwt.jwt import utc_time_sans_frac
 from idpyoidc.client.exception import ResponseError
 from idpyoidc.client.oidc import registration
 from idpyoidc.client.rp_handler import RPHandler
@@ -172,6 +173,9 @@ class Registration(registration.Registration):
         if payload['sub'] != self.upstream_get('attribute', 'entity_id'):
             raise ValueError("Registration response about someone else")
 
+        if payload['exp'] < utc_time_sans_frac():
+            raise ValueError("The registration response has expired")
+
         # This is where I should decide to use the metadata verification service or do it
         # all myself
         # Do I have the necessary Function/Service installed
diff --git a/src/fedservice/appclient/oidc/registration.py b/src/fedservice/appclient/oidc/registration.py
index 57bdb3c..0a28116 100644
--- a/src/fedservice/appclient/oidc/registration.py
+++ b/src/fedservice/appclient/oidc/registration.py
@@ -5,6 +5,7 @@ from cryptojwt import KeyBundle
 from cryptojwt import KeyJar
 from cryptojwt.exception import JWKESTException
 from cryptojwt.jws.jws import factory
+from cryptojwt.jwt import utc_time_sans_frac
 from idpyoidc.client.exception import ResponseError
 from idpyoidc.client.oidc import registration
 from idpyoidc.message.oidc import RegistrationRequest
@@ -151,6 +152,9 @@ class Registration(registration.Registration):
         if payload['sub'] != self.upstream_get('attribute', 'entity_id'):
             raise ValueError("Registration response about someone else")
 
+        if payload['exp'] < utc_time_sans_frac():
+            raise ValueError("The registration response has expired")
+
         # This is where I should decide to use the metadata verification service or do it
         # all myself
         # Do I have the necessary Function/Service installed
-- 
2.43.0


From 9d5d7d7eeb3eb8a8c8d6499dd4ce45a9867cdfee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:06 +0000
Subject: [PATCH 42/94] fix: verify a trust mark with the keys of the issuer's
 trust chain to the trust anchor

---
 .../entity/function/trust_mark_verifier.py           | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/fedservice/entity/function/trust_mark_verifier.py b/src/fedservice/entity/function/trust_mark_verifier.py
index ea64782..61a9454 100644
--- a/src/fedservice/entity/function/trust_mark_verifier.py
+++ b/src/fedservice/entity/function/trust_mark_verifier.py
@@ -7,7 +7,6 @@ from cryptojwt.jws.jws import factory
 from idpyoidc.key_import import import_jwks
 
 from fedservice import message
-from fedservice.entity import apply_policies
 from fedservice.entity.function import Function
 from fedservice.entity.function import get_payload
 from fedservice.entity.function import get_verified_trust_chains
@@ -66,17 +65,10 @@ class TrustMarkVerifier(Function):
 
         # Now try to verify the signature on the trust_mark
         # should have the necessary keys
-        _federation_entity = get_federation_entity(self)
         _jwt = factory(trust_mark)
-        keyjar = _federation_entity.get_attribute('keyjar')
-
+        _chain = [_tc for _tc in _trust_chains if _tc.anchor == trust_anchor][0]
+        keyjar = import_jwks(KeyJar(), _chain.verified_chain[-1]["jwks"], _chain.iss_path[0])
         keys = keyjar.get_jwt_verify_keys(_jwt.jwt)
-        if not keys:
-            _trust_chains = apply_policies(_federation_entity, _trust_chains)
-            keyjar = import_jwks(keyjar,
-                                 _trust_chains[0].verified_chain[-1]["jwks"],
-                                 _trust_chains[0].iss_path[0])
-            keys = keyjar.get_jwt_verify_keys(_jwt.jwt)
 
         try:
             _mark = _jwt.verify_compact(trust_mark, keys=keys)
-- 
2.43.0


From 36716fe0a700c17d04c9481180f61c49f018f296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:06 +0000
Subject: [PATCH 43/94] fix: a trust mark has to be about the entity it is
 verified for

---
 src/fedservice/entity/function/trust_mark_verifier.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fedservice/entity/function/trust_mark_verifier.py b/src/fedservice/entity/function/trust_mark_verifier.py
index 61a9454..840b78a 100644
--- a/src/fedservice/entity/function/trust_mark_verifier.py
+++ b/src/fedservice/entity/function/trust_mark_verifier.py
@@ -37,8 +37,8 @@ class TrustMarkVerifier(Function):
 
         payload = get_payload(trust_mark)
         _trust_mark = message.TrustMark(**payload)
-        # Verify that everything that should be there, are there
-        _trust_mark.verify()
+        # Verify that everything that should be there, are there. And that it's about the right entity
+        _trust_mark.verify(entity_id=entity_id or None)
 
         # Has it expired ?
         if statement_is_expired(_trust_mark):
-- 
2.43.0


From 1bb46f241f400d359a5e4564f9dad6824214501a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:06 +0000
Subject: [PATCH 44/94] fix: a trust mark with a delegation that is not valid
 must be refused

---
 src/fedservice/entity/function/trust_mark_verifier.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/fedservice/entity/function/trust_mark_verifier.py b/src/fedservice/entity/function/trust_mark_verifier.py
index 840b78a..733c38f 100644
--- a/src/fedservice/entity/function/trust_mark_verifier.py
+++ b/src/fedservice/entity/function/trust_mark_verifier.py
@@ -49,6 +49,7 @@ class TrustMarkVerifier(Function):
             _delegation = self.verify_delegation(_trust_mark, trust_anchor)
             if not _delegation:
                 logger.warning("Could not verify the delegation")
+                return None
 
         # Get trust chain
         # _federation_entity = get_federation_entity(self)
@@ -93,4 +94,10 @@ class TrustMarkVerifier(Function):
         _key_jar = KeyJar()
         _key_jar = import_jwks(_key_jar, tm_owner_info['jwks'], tm_owner_info['sub'])
         keys = _key_jar.get_jwt_verify_keys(_delegation.jwt)
-        return _delegation.verify_compact(keys=keys)
+        _claims = _delegation.verify_compact(keys=keys)
+        # The owner must have delegated issuing this trust mark to its issuer
+        if _claims['sub'] != trust_mark['iss'] or _claims['id'] != trust_mark['id']:
+            return None
+        if statement_is_expired(_claims):
+            return None
+        return _claims
-- 
2.43.0


From b8228a6df9e243fb90730ac8af7c78261d1e3b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:40 +0000
Subject: [PATCH 45/94] fix: the metadata of a trust anchor has to be signed by
 the trust anchor

---
 .../entity/function/trust_chain_collector.py          | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/fedservice/entity/function/trust_chain_collector.py b/src/fedservice/entity/function/trust_chain_collector.py
index 5651c35..5bb29ea 100644
--- a/src/fedservice/entity/function/trust_chain_collector.py
+++ b/src/fedservice/entity/function/trust_chain_collector.py
@@ -17,7 +17,6 @@ from requests.exceptions import ConnectionError
 
 from fedservice.entity.function import collect_trust_chains
 from fedservice.entity.function import Function
-from fedservice.entity.function import verify_trust_chains
 from fedservice.entity.utils import get_federation_entity
 from fedservice.entity_statement.cache import ESCache
 from fedservice.exception import FailedConfigurationRetrieval
@@ -176,9 +175,13 @@ class TrustChainCollector(Function):
         if _ec is None:
             _collection = self.upstream_get('unit')
             _federation_entity = _collection.upstream_get('unit')
-            _chains, _ = collect_trust_chains(_federation_entity, entity_id)
-            _trust_chains = verify_trust_chains(_federation_entity, _chains)
-            _ec = self.config_cache[entity_id]
+            _chains, _signed_ec = collect_trust_chains(_federation_entity, entity_id)
+            _ec = verify_self_signed_signature(_signed_ec)
+            _ec["_jws"] = _signed_ec
+
+        if entity_id in self.trust_anchors:
+            # Must be signed with one of the keys I know the trust anchor by
+            JWT(key_jar=self.upstream_get("attribute", "keyjar")).unpack(_ec["_jws"])
 
         return _ec['metadata']
 
-- 
2.43.0


From 6d9a9190672e56b9a576e9f65dfe00957f8bbe14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:25 +0000
Subject: [PATCH 46/94] fix: trust marks that do not verify, or are somebody
 else's, do not count

---
 src/fedservice/entity/__init__.py   | 2 ++
 src/fedservice/entity/server/who.py | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/src/fedservice/entity/__init__.py b/src/fedservice/entity/__init__.py
index c088c94..bb1ffb8 100644
--- a/src/fedservice/entity/__init__.py
+++ b/src/fedservice/entity/__init__.py
@@ -369,6 +369,8 @@ class FederationEntity(Unit):
         # Verifies the signature of the Trust Mark
         verified_trust_mark = self.function.trust_mark_verifier(
             trust_mark=trust_mark, trust_anchor=_tmi_trust_chain.anchor)
+        if not verified_trust_mark:
+            return None
 
         if check_with_issuer:
             # This to check that the Trust Mark is still valid according to the Trust Mark Issuer
diff --git a/src/fedservice/entity/server/who.py b/src/fedservice/entity/server/who.py
index c2dc3ab..3bd085d 100644
--- a/src/fedservice/entity/server/who.py
+++ b/src/fedservice/entity/server/who.py
@@ -88,6 +88,10 @@ class Who(Endpoint):
                     for _mark in _ec["trust_marks"]:
                         _verified_trust_mark = _federation_entity.verify_trust_mark(
                             _mark, check_with_issuer=True)
+                        if not _verified_trust_mark:
+                            continue
+                        if _verified_trust_mark.get("sub") != eid:
+                            continue  # Somebody else's
                         if _verified_trust_mark.get("id") == tm_id:
                             server_to_use.append(eid)
         else:
-- 
2.43.0


From 50e6efc953444b814ee42d3fd85144b07cda96c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:10 +0000
Subject: [PATCH 47/94] fix: a trust mark that has an owner needs the owner's
 delegation

---
 src/fedservice/entity/function/trust_mark_verifier.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/fedservice/entity/function/trust_mark_verifier.py b/src/fedservice/entity/function/trust_mark_verifier.py
index 733c38f..1d9f2ed 100644
--- a/src/fedservice/entity/function/trust_mark_verifier.py
+++ b/src/fedservice/entity/function/trust_mark_verifier.py
@@ -64,6 +64,11 @@ class TrustMarkVerifier(Function):
             logger.warning(f'No verified trust chain to the trust anchor: {trust_anchor}')
             return None
 
+        # A trust mark that has an owner can only be issued by someone the owner has delegated to
+        if 'delegation' not in _trust_mark and self.has_owner(_trust_mark['id'], trust_anchor):
+            logger.warning(f"Missing delegation from the owner of {_trust_mark['id']}")
+            return None
+
         # Now try to verify the signature on the trust_mark
         # should have the necessary keys
         _jwt = factory(trust_mark)
@@ -78,6 +83,12 @@ class TrustMarkVerifier(Function):
         else:
             return _mark
 
+    def has_owner(self, trust_mark_id, trust_anchor_id):
+        _federation_entity = get_federation_entity(self)
+        _collector = _federation_entity.function.trust_chain_collector
+        ta_fe_metadata = _collector.get_metadata(trust_anchor_id).get('federation_entity', {})
+        return trust_mark_id in ta_fe_metadata.get('trust_mark_owners', {})
+
     def verify_delegation(self, trust_mark, trust_anchor_id):
         _federation_entity = get_federation_entity(self)
         _collector = _federation_entity.function.trust_chain_collector
-- 
2.43.0


From 2cdf09d6197c48a21d3693bbe2fa184f629d05a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:39 +0000
Subject: [PATCH 48/94] fix: asking whether an entity has a trust mark must
 give a proper listing

---
 src/fedservice/trust_mark_entity/server/trust_mark_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fedservice/trust_mark_entity/server/trust_mark_list.py b/src/fedservice/trust_mark_entity/server/trust_mark_list.py
index 3a543ad..027522d 100644
--- a/src/fedservice/trust_mark_entity/server/trust_mark_list.py
+++ b/src/fedservice/trust_mark_entity/server/trust_mark_list.py
@@ -39,7 +39,7 @@ class TrustMarkList(Endpoint):
 
         if 'sub' in request and 'trust_mark_id' in request:
             if _trust_mark_entity.find(request['trust_mark_id'], request['sub']):
-                return {"foo": request["sub"]}
+                return {"response_msg": json.dumps([request["sub"]]), "response_code": 200}
         elif 'trust_mark_id' in request:
             _lst = _trust_mark_entity.list(request["trust_mark_id"])
             if _lst:
-- 
2.43.0


From e9786809107db7cc9e0be27ef9b83377d812a470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:39 +0000
Subject: [PATCH 49/94] fix: a trust mark issuer must not vouch for trust marks
 it has not issued

---
 src/fedservice/trust_mark_entity/server/trust_mark_status.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fedservice/trust_mark_entity/server/trust_mark_status.py b/src/fedservice/trust_mark_entity/server/trust_mark_status.py
index d5a86d7..909a113 100644
--- a/src/fedservice/trust_mark_entity/server/trust_mark_status.py
+++ b/src/fedservice/trust_mark_entity/server/trust_mark_status.py
@@ -38,7 +38,9 @@ class TrustMarkStatus(Endpoint):
 
         if 'trust_mark' in request:
             _mark = _trust_mark_issuer.unpack_trust_mark(request['trust_mark'])
-            if _trust_mark_issuer.find(_mark['id'], _mark['sub']):
+            # Can only tell the status of trust marks I've issued
+            if (_mark['iss'] == _trust_mark_issuer.upstream_get('attribute', 'entity_id') and
+                    _trust_mark_issuer.find(_mark['id'], _mark['sub'])):
                 return {'response_args': {'active': True}}
         else:
             if 'sub' in request:
-- 
2.43.0


From c8c29aa41e614f4a10a48bb492f65f24bb69c9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:39 +0000
Subject: [PATCH 50/94] fix: the status of a trust mark issued at a given time
 is about that trust mark

---
 src/fedservice/trust_mark_entity/server/trust_mark_status.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fedservice/trust_mark_entity/server/trust_mark_status.py b/src/fedservice/trust_mark_entity/server/trust_mark_status.py
index 909a113..90f0817 100644
--- a/src/fedservice/trust_mark_entity/server/trust_mark_status.py
+++ b/src/fedservice/trust_mark_entity/server/trust_mark_status.py
@@ -51,7 +51,8 @@ class TrustMarkStatus(Endpoint):
                     _id = request['id']
 
                 if _id:
-                    if _trust_mark_issuer.find(_id, request['sub']):
+                    if _trust_mark_issuer.find(_id, request['sub'],
+                                               int(request.get('iat', 0))):
                         return {'response_args': {'active': True}}
 
         return self.error_cls(error="not_found", error_description="No active trust mark matching the query")
-- 
2.43.0


From 1102ddb958a0b0cd0627bcb9f2e68a66e1ab5406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:11 +0000
Subject: [PATCH 51/94] fix: a trust mark issuer must not remove the lifetimes
 from the configuration it is given

---
 src/fedservice/trust_mark_entity/entity.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/fedservice/trust_mark_entity/entity.py b/src/fedservice/trust_mark_entity/entity.py
index 031f518..a60439a 100644
--- a/src/fedservice/trust_mark_entity/entity.py
+++ b/src/fedservice/trust_mark_entity/entity.py
@@ -39,12 +39,6 @@ class TrustMarkEntity(Unit):
                                      self.unit_get)
         self.trust_mark_specification = trust_mark_specification or {}
 
-        self.tm_lifetime = {}
-        for entity_id, tm in self.trust_mark_specification.items():
-            if "lifetime" in tm:
-                self.tm_lifetime[entity_id] = tm["lifetime"]
-                del tm["lifetime"]
-
         if trust_mark_db:
             self.issued = init_service(trust_mark_db)
         else:
@@ -74,14 +68,15 @@ class TrustMarkEntity(Unit):
         """
         _now = utc_time_sans_frac()
         _add = {'iat': _now, 'id': id, 'sub': sub}
-        lifetime = self.tm_lifetime.get(id)
-        if lifetime:
-            _add['exp'] = _now + lifetime
 
         if id not in self.trust_mark_specification:
             raise ValueError('Unknown trust mark ID')
 
         content = self.trust_mark_specification[id].copy()
+        lifetime = content.pop("lifetime", None)
+        if lifetime:
+            _add['exp'] = _now + lifetime
+
         content.update(_add)
         if kwargs:
             content.update(kwargs)
-- 
2.43.0


From 45a45217dbb208d3afeee4f49c2773827d7664d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:04 +0000
Subject: [PATCH 52/94] fix: statements with critical extensions that are not
 known must not be used

---
 src/fedservice/entity/function/verifier.py |  6 ++++++
 src/fedservice/message.py                  | 18 ++++++++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/src/fedservice/entity/function/verifier.py b/src/fedservice/entity/function/verifier.py
index 2547ce5..c9517eb 100644
--- a/src/fedservice/entity/function/verifier.py
+++ b/src/fedservice/entity/function/verifier.py
@@ -12,6 +12,7 @@ from fedservice.entity.utils import get_federation_entity
 from fedservice.entity_statement.constraints import meets_restrictions
 from fedservice.entity_statement.statement import TrustChain
 from fedservice.exception import UnknownTrustAnchor
+from fedservice.message import unknown_critical_extensions
 
 logger = logging.getLogger(__name__)
 
@@ -90,6 +91,11 @@ class TrustChainVerifier(Function):
             logger.debug("Possible verification keys: %s", _key_spec)
             res = _jwt.verify_compact(keys=keys)
             logger.debug("Verified entity statement: %s", res)
+            _unknown = unknown_critical_extensions(res)
+            if _unknown:
+                logger.error(f"Critical extensions I do not know: {_unknown}")
+                return []
+
             try:
                 _jwks = res['jwks']
             except KeyError:
diff --git a/src/fedservice/message.py b/src/fedservice/message.py
index fd84528..815adea 100644
--- a/src/fedservice/message.py
+++ b/src/fedservice/message.py
@@ -1,5 +1,6 @@
 """ Classes and functions used to describe information in an OpenID Connect Federation."""
 import logging
+from typing import Optional
 
 from cryptojwt.exception import Expired
 from cryptojwt.jwt import utc_time_sans_frac
@@ -445,6 +446,23 @@ class EntityStatement(JsonWebToken):
                 _metadata_policy.verify(policy_language_crit=_crit, **kwargs)
 
 
+def unknown_critical_extensions(statement: dict,
+                                known_extensions: Optional[list] = None,
+                                known_policy_extensions: Optional[list] = None) -> set:
+    """
+    The extensions a verified Entity Statement states are critical but which are not known.
+
+    :param statement: The payload of an Entity Statement
+    :param known_extensions: Names of known claims beyond the specified ones
+    :param known_policy_extensions: Names of known policy operators beyond the specified ones
+    :return: Set of names
+    """
+    _claims = set(statement.get("crit") or [])
+    _operators = set(statement.get("policy_language_crit") or [])
+    return (_claims.difference(EntityStatement.c_param, known_extensions or []) |
+            _operators.difference(Policy.c_param, known_policy_extensions or []))
+
+
 class TrustMark(JsonWebToken):
     c_param = JsonWebToken.c_param.copy()
     c_param.update({
-- 
2.43.0


From 6efd03a764507096ff038572e74f4cd991d0a805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:04 +0000
Subject: [PATCH 53/94] fix: answers that have to be signed must be, whatever
 their content type says

---
 src/fedservice/entity/client/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fedservice/entity/client/__init__.py b/src/fedservice/entity/client/__init__.py
index 1d40d71..169754e 100644
--- a/src/fedservice/entity/client/__init__.py
+++ b/src/fedservice/entity/client/__init__.py
@@ -436,7 +436,10 @@ class FederationClient(FederationClientEntity):
                         _deser_method, response_body_type
                     )
                 )
-            if _deser_method in ["json", "jwt", "urlencoded"]:
+            if response_body_type in ["jwt", "jose"]:
+                # Must be signed, whatever the content type says.
+                value_type = "jwt"
+            elif _deser_method in ["json", "jwt", "urlencoded"]:
                 value_type = _deser_method
             else:
                 value_type = response_body_type
-- 
2.43.0


From 071bdf984924db9cac3dea40d5a05503a0d326df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:04 +0000
Subject: [PATCH 54/94] fix: a cached entity configuration that is too old must
 be fetched again

---
 src/fedservice/entity/__init__.py                | 5 ++---
 src/fedservice/entity/client/entity_statement.py | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/fedservice/entity/__init__.py b/src/fedservice/entity/__init__.py
index bb1ffb8..fd0cbef 100644
--- a/src/fedservice/entity/__init__.py
+++ b/src/fedservice/entity/__init__.py
@@ -314,9 +314,8 @@ class FederationEntity(Unit):
                                       **kwargs)
 
     def trawl(self, superior, subordinate, entity_type):
-        if subordinate in self.function.trust_chain_collector.config_cache:
-            _ec = self.function.trust_chain_collector.config_cache[subordinate]
-        else:
+        _ec = self.function.trust_chain_collector.config_cache[subordinate]
+        if _ec is None:  # Never seen or too old
             _es = self.client.do_request("entity_statement", issuer=superior, subject=subordinate)
 
             # add subjects key/-s to keyjar
diff --git a/src/fedservice/entity/client/entity_statement.py b/src/fedservice/entity/client/entity_statement.py
index aecef8a..99754c2 100644
--- a/src/fedservice/entity/client/entity_statement.py
+++ b/src/fedservice/entity/client/entity_statement.py
@@ -76,9 +76,8 @@ class EntityStatement(FederationService):
         if not fetch_endpoint:
             _federation_entity = get_federation_entity(self)
             _collector = _federation_entity.function.trust_chain_collector
-            if issuer in _collector.config_cache:
-                _ec = _collector.config_cache[issuer]
-            else:
+            _ec = _collector.config_cache[issuer]
+            if _ec is None:  # Never seen or too old
                 logger.debug(f"Entity Configuration for '{issuer}' not cached")
                 _ec = _federation_entity.client.do_request("entity_configuration", entity_id=issuer)
             fetch_endpoint = _ec["metadata"]["federation_entity"][self.endpoint_name]
-- 
2.43.0


From ba65b6bdb5be82cc0e2f46c4ae396d78c0e5797c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:58 +0000
Subject: [PATCH 55/94] fix: the entity configurations the client caches must
 age and be usable by the collector

---
 src/fedservice/entity/client/entity_configuration.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fedservice/entity/client/entity_configuration.py b/src/fedservice/entity/client/entity_configuration.py
index ce29de8..6d9a07f 100644
--- a/src/fedservice/entity/client/entity_configuration.py
+++ b/src/fedservice/entity/client/entity_configuration.py
@@ -113,6 +113,10 @@ class EntityConfiguration(FederationService):
     def post_parse_response(self, response, **kwargs):
         root = get_federation_entity(self)
         _collector = root.function.trust_chain_collector
-        _collector.config_cache[response["iss"]] = response
+        # In the same form as what the collector itself caches, so that it ages and can be used
+        # in the same way
+        _info = response.to_dict()
+        _info["_jws"] = getattr(response, "_jws", "")
+        _collector.config_cache[response["iss"]] = _info
 
         return response
-- 
2.43.0


From 127eac065ec44ed860517aeaff6db0fb9c9fd715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:34 +0000
Subject: [PATCH 56/94] fix: the status of a complete trust mark is asked for
 at the status endpoint

---
 src/fedservice/entity/client/trust_mark_status.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/fedservice/entity/client/trust_mark_status.py b/src/fedservice/entity/client/trust_mark_status.py
index 39d6ddb..9c782ad 100644
--- a/src/fedservice/entity/client/trust_mark_status.py
+++ b/src/fedservice/entity/client/trust_mark_status.py
@@ -3,7 +3,6 @@ from typing import Optional
 from typing import Union
 from urllib.parse import urlencode
 
-from cryptojwt.jws.jws import factory
 from idpyoidc.client.configure import Configuration
 from idpyoidc.exception import MissingAttribute
 from idpyoidc.message import oauth2
@@ -53,15 +52,13 @@ class TrustMarkStatus(FederationService):
 
         if "trust_mark" in request_args:
             _q_args = {'trust_mark': request_args["trust_mark"]}
-            _jws = factory(request_args["trust_mark"])
-            tm_payload = _jws.jwt.payload()
-            fetch_endpoint = tm_payload['iss']
         else:
             _q_args = {k: v for k, v in request_args.items() if k in ['sub', 'trust_mark_id', 'iat']}
+
+        if not fetch_endpoint:
+            fetch_endpoint = kwargs.get("endpoint")
             if not fetch_endpoint:
-                fetch_endpoint = kwargs.get("endpoint")
-                if not fetch_endpoint:
-                    raise MissingAttribute('fetch_endpoint')
+                raise MissingAttribute('fetch_endpoint')
 
         _url = f"{fetch_endpoint}?{urlencode(_q_args)}"
 
-- 
2.43.0


From 2046e700170e5eaf843a268b4e31a35876514d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:43 +0000
Subject: [PATCH 57/94] fix: an answer must be about the entity that was asked
 about

---
 src/fedservice/entity/client/__init__.py             | 10 +++++++++-
 src/fedservice/entity/client/entity_configuration.py |  4 ++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/fedservice/entity/client/__init__.py b/src/fedservice/entity/client/__init__.py
index 169754e..5b5cbf8 100644
--- a/src/fedservice/entity/client/__init__.py
+++ b/src/fedservice/entity/client/__init__.py
@@ -27,6 +27,7 @@ from requests import request
 
 from fedservice.defaults import DEFAULT_FEDERATION_ENTITY_SERVICES
 from fedservice.entity import FederationContext
+from fedservice.exception import WrongSubject
 
 logger = logging.getLogger(__name__)
 
@@ -305,11 +306,18 @@ class FederationClient(FederationClientEntity):
         logger.debug("do_request info: {}".format(_info))
 
         _state = kwargs.get("state", "")
-        return self.service_request(
+        _resp = self.service_request(
             _srv, response_body_type=response_body_type, state=_state,
             behaviour_args=behaviour_args, **_info
         )
 
+        # The answer must be about whom I asked
+        _subject = kwargs.get("subject") or (request_args or {}).get("sub")
+        if _subject and isinstance(_resp, Message) and _resp.get("sub", _subject) != _subject:
+            raise WrongSubject(f"Asked about {_subject}, got an answer about {_resp['sub']}")
+
+        return _resp
+
     def set_client_id(self, client_id):
         self.get_context().set("client_id", client_id)
 
diff --git a/src/fedservice/entity/client/entity_configuration.py b/src/fedservice/entity/client/entity_configuration.py
index 6d9a07f..811ae09 100644
--- a/src/fedservice/entity/client/entity_configuration.py
+++ b/src/fedservice/entity/client/entity_configuration.py
@@ -13,6 +13,7 @@ from idpyoidc.node import topmost_unit
 from fedservice.entity import FederationEntity
 from fedservice.entity.service import FederationService
 from fedservice.entity.utils import get_federation_entity
+from fedservice.exception import WrongSubject
 from fedservice.message import EntityStatement
 
 logger = logging.getLogger(__name__)
@@ -111,6 +112,9 @@ class EntityConfiguration(FederationService):
         return _info
 
     def post_parse_response(self, response, **kwargs):
+        if response["sub"] != response["iss"]:
+            raise WrongSubject("An entity configuration is about its issuer")
+
         root = get_federation_entity(self)
         _collector = root.function.trust_chain_collector
         # In the same form as what the collector itself caches, so that it ages and can be used
-- 
2.43.0


From 425b23fdcdb35f5a482f9f8f23b3eeedc23a344e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:13 +0000
Subject: [PATCH 58/94] fix: a superior must not add keys to those a trust
 anchor is configured with

---
 src/fedservice/entity/__init__.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/fedservice/entity/__init__.py b/src/fedservice/entity/__init__.py
index fd0cbef..cf02cdd 100644
--- a/src/fedservice/entity/__init__.py
+++ b/src/fedservice/entity/__init__.py
@@ -318,9 +318,10 @@ class FederationEntity(Unit):
         if _ec is None:  # Never seen or too old
             _es = self.client.do_request("entity_statement", issuer=superior, subject=subordinate)
 
-            # add subjects key/-s to keyjar
-            _kj = self.get_federation_entity().keyjar
-            _kj = import_jwks(_kj, _es["jwks"], _es["sub"])
+            # add subjects key/-s to keyjar. The keys of a trust anchor are the configured ones.
+            if subordinate not in self.trust_anchors:
+                _kj = self.get_federation_entity().keyjar
+                _kj = import_jwks(_kj, _es["jwks"], _es["sub"])
 
             # Fetch Entity Configuration
             _ec = self.client.do_request("entity_configuration", entity_id=subordinate)
-- 
2.43.0


From 849b30ce410de2fa44eb1461d7e4f274be602363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:36 +0000
Subject: [PATCH 59/94] fix: a registered client can ask an OP that lists no
 request authentication methods

---
 src/fedservice/appclient/oauth2/authorization.py | 3 +++
 src/fedservice/appclient/oidc/authorization.py   | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/fedservice/appclient/oauth2/authorization.py b/src/fedservice/appclient/oauth2/authorization.py
index 2ee8ffb..e2ec422 100644
--- a/src/fedservice/appclient/oauth2/authorization.py
+++ b/src/fedservice/appclient/oauth2/authorization.py
@@ -52,6 +52,9 @@ class Authorization(authorization.Authorization):
 
         _ams = _context.get_metadata_claim('request_authentication_methods_supported', [_entity_type])
 
+        if isinstance(_ams, Exception):  # how the context reports a missing claim
+            _ams = None
+
         # what if request_param is already set ??
         # What if request_param in not in client_auth ??
         if _ams:
diff --git a/src/fedservice/appclient/oidc/authorization.py b/src/fedservice/appclient/oidc/authorization.py
index e816048..474e5b5 100644
--- a/src/fedservice/appclient/oidc/authorization.py
+++ b/src/fedservice/appclient/oidc/authorization.py
@@ -43,6 +43,9 @@ class Authorization(authorization.Authorization):
 
         _auth_meth_supported = _context.get_metadata_claim('request_authentication_methods_supported',
                                            ['openid_provider', 'oauth_authorization_server'])
+        if isinstance(_auth_meth_supported, Exception):  # how the context reports a missing claim
+            _auth_meth_supported = None
+
         # what if request_param is already set ??
         # What if request_param in not in client_auth ??
         if _auth_meth_supported:
-- 
2.43.0


From 400f3a7411922c96070f9310fbd62809f63125ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:36 +0000
Subject: [PATCH 60/94] fix: an explicitly registered client uses the client ID
 it was given

---
 src/fedservice/appclient/oauth2/authorization.py | 4 +++-
 src/fedservice/appclient/oidc/authorization.py   | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/fedservice/appclient/oauth2/authorization.py b/src/fedservice/appclient/oauth2/authorization.py
index e2ec422..335a48d 100644
--- a/src/fedservice/appclient/oauth2/authorization.py
+++ b/src/fedservice/appclient/oauth2/authorization.py
@@ -71,7 +71,9 @@ class Authorization(authorization.Authorization):
 
         client_id = request_args.get('client_id')
         if not client_id:
-            request_args['client_id'] = self.upstream_get('attribute', 'entity_id')
+            if _context.registration_response:  # Registered, so I have been given an identifier
+                client_id = _context.claims.get_usage("client_id")
+            request_args['client_id'] = client_id or self.upstream_get('attribute', 'entity_id')
 
         return request_args, post_args
 
diff --git a/src/fedservice/appclient/oidc/authorization.py b/src/fedservice/appclient/oidc/authorization.py
index 474e5b5..9e46c9c 100644
--- a/src/fedservice/appclient/oidc/authorization.py
+++ b/src/fedservice/appclient/oidc/authorization.py
@@ -62,6 +62,8 @@ class Authorization(authorization.Authorization):
 
         client_id = request_args.get('client_id')
         if not client_id:
-            request_args['client_id'] = self.upstream_get('attribute', 'entity_id')
+            if _context.registration_response:  # Registered, so I have been given an identifier
+                client_id = _context.claims.get_usage("client_id")
+            request_args['client_id'] = client_id or self.upstream_get('attribute', 'entity_id')
 
         return request_args, post_args
-- 
2.43.0


From 75d22fb8fc2afcab69e6172b14a156b7fe6b803a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:36 +0000
Subject: [PATCH 61/94] fix: no unauthenticated authorization request when
 client and OP share no authentication method

---
 src/fedservice/appclient/oauth2/authorization.py | 8 +++++++-
 src/fedservice/appclient/oidc/authorization.py   | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/fedservice/appclient/oauth2/authorization.py b/src/fedservice/appclient/oauth2/authorization.py
index 335a48d..11b5e32 100644
--- a/src/fedservice/appclient/oauth2/authorization.py
+++ b/src/fedservice/appclient/oauth2/authorization.py
@@ -57,13 +57,19 @@ class Authorization(authorization.Authorization):
 
         # what if request_param is already set ??
         # What if request_param in not in client_auth ??
+        _usable = True
         if _ams:
-            for endpoint in _request_endpoints:
+            for endpoint in _request_endpoints or []:
                 if endpoint in _ams:
                     _func = getattr(self, f'_use_{endpoint}')
                     post_args = _func(_context, post_args, _ams, _entity_type)
                     break
+            else:  # Nothing the OP supports is something I can do
+                _usable = False
         else:  # The OP does not support any authn methods
+            _usable = False
+
+        if not _usable:
             # am I already registered ?
             if not _context.registration_response:  # Not registered
                 raise OtherError("Can not send an authorization request without being registered"
diff --git a/src/fedservice/appclient/oidc/authorization.py b/src/fedservice/appclient/oidc/authorization.py
index 9e46c9c..3f0f2ea 100644
--- a/src/fedservice/appclient/oidc/authorization.py
+++ b/src/fedservice/appclient/oidc/authorization.py
@@ -48,13 +48,19 @@ class Authorization(authorization.Authorization):
 
         # what if request_param is already set ??
         # What if request_param in not in client_auth ??
+        _usable = True
         if _auth_meth_supported:
-            for endpoint in _request_endpoints:
+            for endpoint in _request_endpoints or []:
                 if endpoint in _auth_meth_supported:
                     _func = getattr(self, f'_use_{endpoint}')
                     post_args = _func(_context, post_args, _auth_meth_supported)
                     break
+            else:  # Nothing the OP supports is something I can do
+                _usable = False
         else:  # The OP does not support any authn methods
+            _usable = False
+
+        if not _usable:
             # am I already registered ?
             if not _context.registration_response:  # Not registered
                 raise OtherError("Can not send an authorization request without being registered"
-- 
2.43.0


From aaebcc2f638b62861a79c9fba1a387efe76938ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:27 +0000
Subject: [PATCH 62/94] fix: a client that pushes its authorization requests
 does so where the OP supports it

---
 src/fedservice/appclient/oauth2/authorization.py | 4 +++-
 src/fedservice/appclient/oidc/authorization.py   | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/fedservice/appclient/oauth2/authorization.py b/src/fedservice/appclient/oauth2/authorization.py
index 11b5e32..0c71629 100644
--- a/src/fedservice/appclient/oauth2/authorization.py
+++ b/src/fedservice/appclient/oauth2/authorization.py
@@ -27,12 +27,14 @@ class Authorization(authorization.Authorization):
 
         return post_args
 
-    def _use_pushed_authorization_endpoint(self, context, post_args, ams, entity_type):
+    def _use_pushed_authorization_request_endpoint(self, context, post_args, ams, entity_type):
         if 'pushed_authorization' not in context.add_on:
             raise UnSupported('Pushed Authorization not supported')
         else:  # Make it happen
             context.add_on['pushed_authorization']['apply'] = True
 
+        return post_args
+
     def _automatic_registration(self, request_args, post_args=None, **kwargs):
         _context = self.upstream_get("context")
         if post_args is None:
diff --git a/src/fedservice/appclient/oidc/authorization.py b/src/fedservice/appclient/oidc/authorization.py
index 3f0f2ea..b71639a 100644
--- a/src/fedservice/appclient/oidc/authorization.py
+++ b/src/fedservice/appclient/oidc/authorization.py
@@ -26,12 +26,14 @@ class Authorization(authorization.Authorization):
 
         return post_args
 
-    def _use_pushed_authorization_endpoint(self, context, post_args, ams):
+    def _use_pushed_authorization_request_endpoint(self, context, post_args, ams):
         if 'pushed_authorization' not in context.add_on:
             raise UnSupported('Pushed Authorization not supported')
         else:  # Make it happen
             context.add_on['pushed_authorization']['apply'] = True
 
+        return post_args
+
     def _automatic_registration(self, request_args, post_args=None, **kwargs):
         _context = self.upstream_get("context")
         if post_args is None:
-- 
2.43.0


From 0979ff5dae77b6916c565a4fd34b776c2575a71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:20 +0000
Subject: [PATCH 63/94] fix: a refused registration must not replace or leave a
 client record

---
 .../appserver/oauth2/registration.py          | 21 ++++++++++++++-----
 src/fedservice/appserver/oidc/registration.py | 12 ++++++++++-
 2 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/fedservice/appserver/oauth2/registration.py b/src/fedservice/appserver/oauth2/registration.py
index 31f1abc..a1225c3 100644
--- a/src/fedservice/appserver/oauth2/registration.py
+++ b/src/fedservice/appserver/oauth2/registration.py
@@ -354,12 +354,23 @@ class Registration(Endpoint):
 
         logger.debug("Stored client info in CDB under cid={}".format(client_id))
 
+        _previous = _context.cdb.get(client_id)
         _context.cdb[client_id] = _cinfo
-        _cinfo = self.do_client_registration(
-            request,
-            client_id,
-            ignore=["redirect_uris", "policy_uri", "logo_uri", "tos_uri"],
-        )
+        _cinfo = None
+        try:
+            _cinfo = self.do_client_registration(
+                request,
+                client_id,
+                ignore=["redirect_uris", "policy_uri", "logo_uri", "tos_uri"],
+            )
+        finally:
+            if _cinfo is None or isinstance(_cinfo, ResponseMessage):
+                # Refused, so nothing of it should remain
+                if _previous is None:
+                    del _context.cdb[client_id]
+                else:
+                    _context.cdb[client_id] = _previous
+
         if isinstance(_cinfo, ResponseMessage):
             return _cinfo
 
diff --git a/src/fedservice/appserver/oidc/registration.py b/src/fedservice/appserver/oidc/registration.py
index 8793aa7..91919cb 100644
--- a/src/fedservice/appserver/oidc/registration.py
+++ b/src/fedservice/appserver/oidc/registration.py
@@ -95,8 +95,18 @@ class Registration(registration.Registration):
     def non_fed_process_request(self, req, **kwargs):
         if "new_id" not in kwargs:
             kwargs["new_id"] = False
+        _cdb = self.upstream_get("context").cdb
+        _client_id = req.get("client_id")
+        _previous = _cdb.get(_client_id)
         # handle the registration request as in the non-federation case.
-        return registration.Registration.process_request(self, req, authn=None, **kwargs)
+        response_info = registration.Registration.process_request(self, req, authn=None, **kwargs)
+        if "response_args" not in response_info and _cdb.get(_client_id) is not _previous:
+            # Refused, so nothing of it should remain
+            if _previous is None:
+                del _cdb[_client_id]
+            else:
+                _cdb[_client_id] = _previous
+        return response_info
 
     @staticmethod
     def create_entity_statement(response_args, request, context,
-- 
2.43.0


From 628e4665821de9857be6c8ce2769e20f479b82a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:04 +0000
Subject: [PATCH 64/94] fix: a registration response must not name capabilities
 the client was not registered with

---
 src/fedservice/appserver/oauth2/registration.py | 8 ++++++++
 src/fedservice/appserver/oidc/registration.py   | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/fedservice/appserver/oauth2/registration.py b/src/fedservice/appserver/oauth2/registration.py
index a1225c3..03cc899 100644
--- a/src/fedservice/appserver/oauth2/registration.py
+++ b/src/fedservice/appserver/oauth2/registration.py
@@ -79,6 +79,14 @@ class Registration(Endpoint):
             _context = _federation_entity.context
             _policy_metadata = req.to_dict()
             _policy_metadata.update(response_info['response_args'])
+            # The client must be told about what it was registered with
+            _op_context = self.upstream_get("context")
+            _registered = _op_context.cdb[response_info['response_args']['client_id']]
+            for claim in _op_context.claims.register2preferred:
+                if claim in _registered:
+                    _policy_metadata[claim] = _registered[claim]
+                else:
+                    _policy_metadata.pop(claim, None)
             # Should I filter out stuff I have no reason to change ?
             _policy_metadata = {k: v for k, v in _policy_metadata.items() if k not in [
                 'application_type',
diff --git a/src/fedservice/appserver/oidc/registration.py b/src/fedservice/appserver/oidc/registration.py
index 91919cb..3b87215 100644
--- a/src/fedservice/appserver/oidc/registration.py
+++ b/src/fedservice/appserver/oidc/registration.py
@@ -75,6 +75,14 @@ class Registration(registration.Registration):
 
             _policy_metadata = req.to_dict()
             _policy_metadata.update(response_info['response_args'])
+            # The client must be told about what it was registered with
+            _op_context = self.upstream_get("context")
+            _registered = _op_context.cdb[response_info['response_args']['client_id']]
+            for claim in _op_context.claims.register2preferred:
+                if claim in _registered:
+                    _policy_metadata[claim] = _registered[claim]
+                else:
+                    _policy_metadata.pop(claim, None)
             # Should I filter out stuff I have no reason to change ?
             _policy_metadata = {k: v for k, v in _policy_metadata.items() if k not in [
                 'application_type',
-- 
2.43.0


From 56a8fb42e3479b60b53a542e62970d7a1d27de54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:21 +0000
Subject: [PATCH 65/94] fix: an explicit registration request could not be sent

---
 src/fedservice/appclient/oauth2/registration.py | 2 +-
 src/fedservice/appclient/oidc/registration.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fedservice/appclient/oauth2/registration.py b/src/fedservice/appclient/oauth2/registration.py
index 40854de..0b7d2a1 100644
--- a/src/fedservice/appclient/oauth2/registration.py
+++ b/src/fedservice/appclient/oauth2/registration.py
@@ -30,7 +30,7 @@ class Registration(registration.Registration):
     response_cls = OauthClientInformationResponse
     endpoint_name = 'federation_registration_endpoint'
     error_cls = ResponseMessage
-    request_body_type = 'jwt'
+    request_body_type = 'jose'
     response_body_type = 'jwt'
     content_type = "application/entity-statement+jwt"
     name = 'registration'
diff --git a/src/fedservice/appclient/oidc/registration.py b/src/fedservice/appclient/oidc/registration.py
index 0a28116..7b1544f 100644
--- a/src/fedservice/appclient/oidc/registration.py
+++ b/src/fedservice/appclient/oidc/registration.py
@@ -25,7 +25,7 @@ class Registration(registration.Registration):
     msg_type = RegistrationRequest
     response_cls = RegistrationResponse
     endpoint_name = 'federation_registration_endpoint'
-    request_body_type = 'jwt'
+    request_body_type = 'jose'
     response_body_type = 'jwt'
     content_type = "application/entity-statement+jwt"
     name = 'registration'
-- 
2.43.0


From 788c20761b990c5b088bd53f2edcb07cccc09050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:21 +0000
Subject: [PATCH 66/94] fix: a client of an RPHandler must keep the
 registration response it got

---
 src/fedservice/appclient/oauth2/registration.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fedservice/appclient/oauth2/registration.py b/src/fedservice/appclient/oauth2/registration.py
index 0b7d2a1..1cb5a63 100644
--- a/src/fedservice/appclient/oauth2/registration.py
+++ b/src/fedservice/appclient/oauth2/registration.py
@@ -237,6 +237,7 @@ class Registration(registration.Registration):
                     client = kwargs["behaviour_args"]["client"]
                     _context = client.context
                     _context.map_preferred_to_registered(resp[guise])
+                    _context.registration_response = resp[guise]
 
                     for arg in ["client_id", "client_secret"]:
                         _val = _context.claims.get_usage(arg)
-- 
2.43.0


From 68b816d2a8cd0101e1b94809962b8e8464423c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:21 +0000
Subject: [PATCH 67/94] fix: a registered client must use the client id it was
 given

---
 src/fedservice/appclient/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fedservice/appclient/__init__.py b/src/fedservice/appclient/__init__.py
index ee9d2f7..b0d14d9 100644
--- a/src/fedservice/appclient/__init__.py
+++ b/src/fedservice/appclient/__init__.py
@@ -140,6 +140,10 @@ class ClientEntity(ClientUnit):
         return self
 
     def get_client_id(self):
+        if self.context.registration_response:  # Registered, so I have been given an identifier
+            _client_id = self.context.claims.get_usage("client_id")
+            if _client_id:
+                return _client_id
         return self.entity_id
 
     def get_metadata(self, entity_type="", *args):
-- 
2.43.0


From 4eca37b5fdf0ad4ea83d9be37f7dceac8d91f678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:21 +0000
Subject: [PATCH 68/94] fix: a provider must not be able to speak for another
 issuer

---
 src/fedservice/appclient/stand_alone_client_entity.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fedservice/appclient/stand_alone_client_entity.py b/src/fedservice/appclient/stand_alone_client_entity.py
index 0ed0da5..f44bd79 100644
--- a/src/fedservice/appclient/stand_alone_client_entity.py
+++ b/src/fedservice/appclient/stand_alone_client_entity.py
@@ -68,9 +68,11 @@ class StandAloneClientEntity(ClientEntity):
         if _trust_chains:
             save_trust_chains(context, _trust_chains)
             trust_chain = federation_entity.pick_trust_chain(_trust_chains)
-            federation_entity.trust_chain_anchor = trust_chain.anchor
             # _pi = trust_chain.metadata["openid_relying_party"]
             _pi = trust_chain.metadata["openid_provider"]
+            if _pi["issuer"] != context.issuer:
+                raise ValueError(f"{context.issuer} claims to be {_pi['issuer']}")
+            federation_entity.trust_chain_anchor = trust_chain.anchor
             federation_entity.context.trust_chain[_pi["issuer"]] = trust_chain
             context.provider_info = context.metadata = _pi
             self._import_keys(_pi, context.keyjar, _pi["issuer"])
-- 
2.43.0


From b5209be7a16e9bdd6b4df4d431665aae63854ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:21 +0000
Subject: [PATCH 69/94] fix: automatic registration needs the metadata of the
 provider

---
 src/fedservice/appclient/stand_alone_client_entity.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fedservice/appclient/stand_alone_client_entity.py b/src/fedservice/appclient/stand_alone_client_entity.py
index f44bd79..730d794 100644
--- a/src/fedservice/appclient/stand_alone_client_entity.py
+++ b/src/fedservice/appclient/stand_alone_client_entity.py
@@ -75,6 +75,7 @@ class StandAloneClientEntity(ClientEntity):
             federation_entity.trust_chain_anchor = trust_chain.anchor
             federation_entity.context.trust_chain[_pi["issuer"]] = trust_chain
             context.provider_info = context.metadata = _pi
+            context.server_metadata = trust_chain.metadata
             self._import_keys(_pi, context.keyjar, _pi["issuer"])
             return _pi
         else:
-- 
2.43.0


From 71eef6c54f5b01f57a4315008e6eaa8ff48575f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:58 +0000
Subject: [PATCH 70/94] fix: a login with request arguments but no response
 type could not be started

---
 src/fedservice/appclient/stand_alone_client_entity.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fedservice/appclient/stand_alone_client_entity.py b/src/fedservice/appclient/stand_alone_client_entity.py
index 730d794..75a27cc 100644
--- a/src/fedservice/appclient/stand_alone_client_entity.py
+++ b/src/fedservice/appclient/stand_alone_client_entity.py
@@ -204,11 +204,11 @@ class StandAloneClientEntity(ClientEntity):
             _response_type = req_args.get("response_type")
             if _response_type:
                 return _response_type
+
+        if default_response_type in context.claims.get_usage("response_types"):
+            return default_response_type
         else:
-            if default_response_type in context.claims.get_usage("response_types"):
-                return default_response_type
-            else:
-                return context.claims.get_usage("response_types")[0]
+            return context.claims.get_usage("response_types")[0]
 
     def _get_response_mode(self, context, response_type, request_args):
         if request_args:
-- 
2.43.0


From e962c112ad48bdeedefab678a181d293d748466c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:12 +0000
Subject: [PATCH 71/94] fix: the superior of a trust anchor's subordinates is
 the trust anchor

---
 src/fedservice/entity/server/who.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/fedservice/entity/server/who.py b/src/fedservice/entity/server/who.py
index 3bd085d..0fbc567 100644
--- a/src/fedservice/entity/server/who.py
+++ b/src/fedservice/entity/server/who.py
@@ -59,8 +59,7 @@ class Who(Endpoint):
         # print(f"Subordinates to TA: {list_resp}")
         for entity_id in list_resp:
             servers.extend(
-                _federation_entity.trawl(_federation_entity.entity_id, entity_id,
-                                         entity_type=_entity_type))
+                _federation_entity.trawl(trust_anchor, entity_id, entity_type=_entity_type))
 
         _srv = {}
         credential_type = request.get("credential_type", self.credential_type)
-- 
2.43.0


From 51d09ddabfcaa9d83854c4ba93326dc9ea986875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:46 +0000
Subject: [PATCH 72/94] fix: trawling a federation must end also when
 intermediates list each other

---
 src/fedservice/entity/__init__.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/fedservice/entity/__init__.py b/src/fedservice/entity/__init__.py
index cf02cdd..7b4a549 100644
--- a/src/fedservice/entity/__init__.py
+++ b/src/fedservice/entity/__init__.py
@@ -313,7 +313,13 @@ class FederationEntity(Unit):
                                       request_args=request_args, behaviour_args=behaviour_args,
                                       **kwargs)
 
-    def trawl(self, superior, subordinate, entity_type):
+    def trawl(self, superior, subordinate, entity_type, visited=None):
+        if visited is None:
+            visited = set()
+        if subordinate in visited:  # Intermediates may list each other
+            return []
+        visited.add(subordinate)
+
         _ec = self.function.trust_chain_collector.config_cache[subordinate]
         if _ec is None:  # Never seen or too old
             _es = self.client.do_request("entity_statement", issuer=superior, subject=subordinate)
@@ -352,7 +358,7 @@ class FederationEntity(Unit):
         # For all intermediates go further down the tree
         if _intermediates:
             for entity_id in _intermediates:
-                _ids = self.trawl(subordinate, entity_id, entity_type)
+                _ids = self.trawl(subordinate, entity_id, entity_type, visited)
                 if _ids:
                     _issuers.extend(_ids)
 
-- 
2.43.0


From 863c328e19a3c93372038e8a71967fa6ea7a9505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:39 +0000
Subject: [PATCH 73/94] fix: trawling must only rely on entities that have a
 valid trust chain

---
 src/fedservice/entity/__init__.py | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/src/fedservice/entity/__init__.py b/src/fedservice/entity/__init__.py
index 7b4a549..b4bff03 100644
--- a/src/fedservice/entity/__init__.py
+++ b/src/fedservice/entity/__init__.py
@@ -320,24 +320,18 @@ class FederationEntity(Unit):
             return []
         visited.add(subordinate)
 
-        _ec = self.function.trust_chain_collector.config_cache[subordinate]
-        if _ec is None:  # Never seen or too old
-            _es = self.client.do_request("entity_statement", issuer=superior, subject=subordinate)
-
-            # add subjects key/-s to keyjar. The keys of a trust anchor are the configured ones.
-            if subordinate not in self.trust_anchors:
-                _kj = self.get_federation_entity().keyjar
-                _kj = import_jwks(_kj, _es["jwks"], _es["sub"])
-
-            # Fetch Entity Configuration
-            _ec = self.client.do_request("entity_configuration", entity_id=subordinate)
+        # Only what a trust chain says about the subordinate can be trusted
+        _metadata = self.get_verified_metadata(subordinate)
+        if not _metadata:
+            logger.warning(f"No trusted metadata for {subordinate}, listed by {superior}")
+            return []
 
-        if entity_type in _ec["metadata"]:
-            _issuers = [_ec["sub"]]
+        if entity_type in _metadata:
+            _issuers = [subordinate]
         else:
             _issuers = []
 
-        if "federation_list_endpoint" not in _ec["metadata"]["federation_entity"]:
+        if "federation_list_endpoint" not in _metadata.get("federation_entity", {}):
             return _issuers
 
         # One step down the tree
-- 
2.43.0


From c75f03d2e80e5785db030fb729880be09b5edcf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:39 +0000
Subject: [PATCH 74/94] fix: an entity that can not be reached, or gives no
 list, must not stop the trawling

---
 src/fedservice/entity/__init__.py | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/fedservice/entity/__init__.py b/src/fedservice/entity/__init__.py
index b4bff03..f0d5134 100644
--- a/src/fedservice/entity/__init__.py
+++ b/src/fedservice/entity/__init__.py
@@ -313,6 +313,18 @@ class FederationEntity(Unit):
                                       request_args=request_args, behaviour_args=behaviour_args,
                                       **kwargs)
 
+    def get_subordinates(self, entity_id, **kwargs):
+        """
+        List the subordinates of an entity. An entity that doesn't give a list lists nobody.
+        """
+        try:
+            _resp = self.client.do_request("list", entity_id=entity_id, **kwargs)
+        except Exception as err:
+            logger.warning(f"Could not list the subordinates of {entity_id}: {err}")
+            return []
+
+        return [e for e in _resp if isinstance(e, str)] if isinstance(_resp, list) else []
+
     def trawl(self, superior, subordinate, entity_type, visited=None):
         if visited is None:
             visited = set()
@@ -321,7 +333,11 @@ class FederationEntity(Unit):
         visited.add(subordinate)
 
         # Only what a trust chain says about the subordinate can be trusted
-        _metadata = self.get_verified_metadata(subordinate)
+        try:
+            _metadata = self.get_verified_metadata(subordinate)
+        except Exception as err:
+            logger.warning(f"Could not collect trust chains for {subordinate}: {err}")
+            _metadata = None
         if not _metadata:
             logger.warning(f"No trusted metadata for {subordinate}, listed by {superior}")
             return []
@@ -336,18 +352,10 @@ class FederationEntity(Unit):
 
         # One step down the tree
         # All subordinates that are of a specific entity_type
-        _added_issuers = self.client.do_request("list",
-                                                entity_id=subordinate,
-                                                entity_type=entity_type)
-        if _added_issuers is None:
-            pass
-        else:
-            _issuers.extend(_added_issuers)
+        _issuers.extend(self.get_subordinates(subordinate, entity_type=entity_type))
 
         # All subordinates that are intermediates
-        _intermediates = self.client.do_request("list",
-                                                entity_id=subordinate,
-                                                intermediate=True)
+        _intermediates = self.get_subordinates(subordinate, intermediate=True)
 
         # For all intermediates go further down the tree
         if _intermediates:
-- 
2.43.0


From abf3612f8782a18dc7af74ab43ec629b68845fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:46 +0000
Subject: [PATCH 75/94] fix: who has to pass over those that are not valid
 credential issuers

---
 src/fedservice/entity/server/who.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/fedservice/entity/server/who.py b/src/fedservice/entity/server/who.py
index 0fbc567..e2f77fb 100644
--- a/src/fedservice/entity/server/who.py
+++ b/src/fedservice/entity/server/who.py
@@ -31,6 +31,13 @@ class Who(Endpoint):
             self.credential_type = ""
             self.trust_mark_id = kwargs.get("trust_mark_id", "")
 
+    def verified_metadata(self, entity_id):
+        try:
+            return get_federation_entity(self).get_verified_metadata(entity_id)
+        except Exception as err:
+            logger.warning(f"Could not collect trust chains for {entity_id}: {err}")
+            return None
+
     def process_request(self, request=None, trust_anchor: str = "" ,**kwargs):
         if not request:
             request = {}
@@ -65,10 +72,13 @@ class Who(Endpoint):
         credential_type = request.get("credential_type", self.credential_type)
         if credential_type:
             for eid in set(servers):
-                _metadata = _federation_entity.get_verified_metadata(eid)
+                _metadata = self.verified_metadata(eid)
+                if not _metadata:
+                    continue
                 # logger.info(json.dumps(oci_metadata, sort_keys=True, indent=4))
-                for cs in _metadata['openid_credential_issuer']["credentials_supported"]:
-                    if credential_type in cs["credential_definition"]["type"]:
+                _issuer = _metadata.get('openid_credential_issuer', {})
+                for cs in _issuer.get("credentials_supported", []):
+                    if credential_type in cs.get("credential_definition", {}).get("type", []):
                         _srv[eid] = _metadata
                         break
 
-- 
2.43.0


From fa1e3919685d4e4f099332f752b80f6c01bb86ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:46 +0000
Subject: [PATCH 76/94] fix: who named nobody when no credential type was asked
 for

---
 src/fedservice/entity/server/who.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fedservice/entity/server/who.py b/src/fedservice/entity/server/who.py
index e2f77fb..fc2082d 100644
--- a/src/fedservice/entity/server/who.py
+++ b/src/fedservice/entity/server/who.py
@@ -81,6 +81,11 @@ class Who(Endpoint):
                     if credential_type in cs.get("credential_definition", {}).get("type", []):
                         _srv[eid] = _metadata
                         break
+        else:
+            for eid in set(servers):
+                _metadata = self.verified_metadata(eid)
+                if _metadata and _entity_type in _metadata:
+                    _srv[eid] = _metadata
 
         tm_id = request.get("trust_mark_id", self.trust_mark_id)
         if tm_id:
-- 
2.43.0


From 37c073310fd1f2c75a5a0e9d45967ebcaf5c4146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:46 +0000
Subject: [PATCH 77/94] fix: a bad trust mark or a repeated one must not spoil
 the answer of who

---
 src/fedservice/entity/server/who.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/fedservice/entity/server/who.py b/src/fedservice/entity/server/who.py
index fc2082d..c919321 100644
--- a/src/fedservice/entity/server/who.py
+++ b/src/fedservice/entity/server/who.py
@@ -93,21 +93,26 @@ class Who(Endpoint):
             for eid, metadata in _srv.items():
                 _trust_chains = _federation_entity.get_trust_chains(eid)
                 if not _trust_chains:
-                    return "Couldn't collect Trust Chains", 400
+                    continue
                 else:
                     _trust_chain = _trust_chains[0]
 
                 _ec = _trust_chain.verified_chain[-1]
                 if "trust_marks" in _ec:
                     for _mark in _ec["trust_marks"]:
-                        _verified_trust_mark = _federation_entity.verify_trust_mark(
-                            _mark, check_with_issuer=True)
+                        try:
+                            _verified_trust_mark = _federation_entity.verify_trust_mark(
+                                _mark, check_with_issuer=True)
+                        except Exception as err:
+                            logger.warning(f"Trust mark of {eid} did not verify: {err}")
+                            continue
                         if not _verified_trust_mark:
                             continue
                         if _verified_trust_mark.get("sub") != eid:
                             continue  # Somebody else's
                         if _verified_trust_mark.get("id") == tm_id:
                             server_to_use.append(eid)
+                            break
         else:
             server_to_use = list(_srv.keys())
 
-- 
2.43.0


From 262fe884dff14bb585a0ff6476e238609df2a496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:35 +0000
Subject: [PATCH 78/94] fix: an entity with a path in its identifier is found
 also when there is another one at the root of the host

---
 .../entity/client/entity_configuration.py     |  2 +-
 .../entity/function/trust_chain_collector.py  | 24 +++++++++----------
 2 files changed, 12 insertions(+), 14 deletions(-)

diff --git a/src/fedservice/entity/client/entity_configuration.py b/src/fedservice/entity/client/entity_configuration.py
index 811ae09..ed84ca3 100644
--- a/src/fedservice/entity/client/entity_configuration.py
+++ b/src/fedservice/entity/client/entity_configuration.py
@@ -28,7 +28,7 @@ def construct_well_known_url(entity_id, typ):
 
 def construct_tenant_well_known_url(entity_id, typ):
     p = urlparse(entity_id)
-    return f'{p.scheme}://{p.netloc}{p.path}/.well-known/{typ}'
+    return f'{p.scheme}://{p.netloc}{p.path.rstrip("/")}/.well-known/{typ}'
 
 
 class EntityConfiguration(FederationService):
diff --git a/src/fedservice/entity/function/trust_chain_collector.py b/src/fedservice/entity/function/trust_chain_collector.py
index 5bb29ea..58edaf5 100644
--- a/src/fedservice/entity/function/trust_chain_collector.py
+++ b/src/fedservice/entity/function/trust_chain_collector.py
@@ -135,24 +135,22 @@ class TrustChainCollector(Function):
         logger.debug(f"--get_configuration_information({entity_id})")
         _serv = self._get_service('entity_configuration')
         _res = _serv.get_request_parameters(request_args={"entity_id": entity_id})
-        logger.debug(f"Get configuration from: {_res['url']}")
+        # An entity with a path in its identifier (a tenant) publishes its configuration below that
+        # path. What is published at the root of the host is in general about some other entity.
+        _tres = _serv.get_request_parameters(request_args={"entity_id": entity_id}, tenant=True)
+        logger.debug(f"Get configuration from: {_tres['url']}")
         try:
             # if self.use_ssc:
             #     logger.debug("Use SelfSignedCert support")
             #     self_signed_config = self.do_ssc_seq(_url, entity_id)
             # else:
-            self_signed_config = self.get_document(_res['url'])
-        except MissingPage:  # if tenant involved
-            _tres = _serv.get_request_parameters(request_args={"entity_id": entity_id}, tenant=True)
-            logger.debug(f"Get configuration from (tenant): '{entity_id}'")
-            if _tres["url"] != _res["url"]:
-                # if self.use_ssc:
-                #     self_signed_config = self.do_ssc_seq(_tenant_url, entity_id)
-                # else:
-                self_signed_config = self.get_document(_tres["url"])
-                logger.debug(f'Self signed statement: {self_signed_config}')
-            else:
-                raise MissingPage(f"No such page: '{_tres['url']}'")
+            try:
+                self_signed_config = self.get_document(_tres['url'])
+            except MissingPage:
+                if _tres["url"] == _res["url"]:
+                    raise
+                logger.debug(f"Get configuration from the root of the host: {_res['url']}")
+                self_signed_config = self.get_document(_res['url'])
         except SSLError as err:
             logger.error(err)
             raise
-- 
2.43.0


From dd547a17a9605c5c9235ec7d3ad6fec6e1bf3146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:00 +0000
Subject: [PATCH 79/94] fix: what one federation entity is built with must not
 become the default of others

---
 src/fedservice/build_entity.py | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/fedservice/build_entity.py b/src/fedservice/build_entity.py
index d7b9922..ba948df 100644
--- a/src/fedservice/build_entity.py
+++ b/src/fedservice/build_entity.py
@@ -12,6 +12,20 @@ KEYDEFS = [
 ]
 
 
+def private_copy(specs: dict) -> dict:
+    """
+    The defaults, and the configuration given, may be used for other entities too. Hence, what is
+    added to them for one entity must be added to a copy.
+    """
+    res = {}
+    for name, spec in specs.items():
+        if isinstance(spec, dict):
+            spec = spec.copy()
+            spec["kwargs"] = dict(spec.get("kwargs") or {})
+        res[name] = spec
+    return res
+
+
 class FederationEntityBuilder():
 
     def __init__(self,
@@ -36,9 +50,9 @@ class FederationEntityBuilder():
 
         kwargs = {}
         if services:
-            kwargs['services'] = services
+            kwargs['services'] = private_copy(services)
         else:
-            kwargs['services'] = FEDERATION_ENTITY_SERVICES
+            kwargs['services'] = private_copy(FEDERATION_ENTITY_SERVICES)
 
         if kwargs_spec:
             for key, val in kwargs_spec.items():
@@ -66,9 +80,10 @@ class FederationEntityBuilder():
         # endpoints are accessible to services. Accepts requests and returns responses.
         kwargs = {}
         if endpoints:
-            kwargs['endpoint'] = endpoints
+            kwargs['endpoint'] = private_copy(endpoints)
         else:
-            kwargs['endpoint'] = federation_endpoints("entity_configuration", "fetch", "list")
+            kwargs['endpoint'] = private_copy(
+                federation_endpoints("entity_configuration", "fetch", "list"))
 
         if kwargs_spec:
             for key, val in kwargs_spec.items():
@@ -97,9 +112,9 @@ class FederationEntityBuilder():
         # available services.
         kwargs = {}
         if functions:
-            kwargs['functions'] = functions
+            kwargs['functions'] = private_copy(functions)
         else:
-            kwargs['functions'] = DEFAULT_FEDERATION_ENTITY_FUNCTIONS
+            kwargs['functions'] = private_copy(DEFAULT_FEDERATION_ENTITY_FUNCTIONS)
 
         if kwargs_spec:
             for key, val in kwargs_spec.items():
-- 
2.43.0


From ff73cf1a84061cd41e5dfef6376e7dae119c9120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:45 +0000
Subject: [PATCH 80/94] fix: an entity that should have no endpoints or
 functions must not get the default ones

---
 src/fedservice/utils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/fedservice/utils.py b/src/fedservice/utils.py
index 7e27057..4027b03 100644
--- a/src/fedservice/utils.py
+++ b/src/fedservice/utils.py
@@ -88,9 +88,11 @@ def build_entity_config(entity_id: str,
                     func(args=_args, kwargs_spec=kwargs_spec, **items)
                 else:
                     func(args=_args, kwargs_spec=kwargs_spec, **federation_endpoints(*items))
-        elif services == []:
-            pass
-        else:  # There is a difference between None == default and [] which means none
+        elif items == []:  # There is a difference between None == default and [] which means none
+            if name == "endpoint":  # A server without endpoints
+                func(args=_args)
+                entity.set_attr("server", {"endpoint": {}})
+        else:
             func(args=_args, kwargs_spec=kwargs_spec)
 
     if httpc_params:
-- 
2.43.0


From fc155e22913da36f4a44c9eab76f0f7fa0deb632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:20 +0000
Subject: [PATCH 81/94] fix: the HTTP parameters of one combination of entities
 must not be used by others

---
 src/fedservice/combo/__init__.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/fedservice/combo/__init__.py b/src/fedservice/combo/__init__.py
index 678bb0e..8c990f3 100644
--- a/src/fedservice/combo/__init__.py
+++ b/src/fedservice/combo/__init__.py
@@ -1,3 +1,4 @@
+from copy import copy
 import logging
 from typing import Any
 from typing import Optional
@@ -36,7 +37,7 @@ class Combo(Unit):
         for key, spec in config.items():
             if isinstance(spec, dict) and 'class' in spec:
                 if httpc_params:
-                    self._add_httpc_params(spec, httpc_params)
+                    spec = self._add_httpc_params(spec, httpc_params)
                 logger.info(f"Initiating entity type: '{key}' with config: {spec}")
                 self._part[key] = execute(spec, upstream_get=self.unit_get,
                                           entity_id=self.entity_id, httpc=httpc,
@@ -46,13 +47,16 @@ class Combo(Unit):
         return config.get("httpc_params")
 
     def _add_httpc_params(self, spec, httpc_params):
-        spec_kwargs = spec.get("kwargs", {})
+        # The specification may be used for other entities too, so it must not be changed
+        spec_kwargs = dict(spec.get("kwargs", {}))
         if "config" in spec_kwargs:
             if httpc_params and "httpc_params" not in spec_kwargs["config"]:
+                spec_kwargs["config"] = copy(spec_kwargs["config"])
                 spec_kwargs["config"]["httpc_params"] = httpc_params
         else:
             if "httpc_params" not in spec_kwargs:
                 spec_kwargs["httpc_params"] = httpc_params
+        return {**spec, "kwargs": spec_kwargs}
 
     def __getitem__(self, item):
         if item in self._part:
-- 
2.43.0


From 9676240a34df1b0e20e8ffe8e9b3c9b0819f4c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:15 +0000
Subject: [PATCH 82/94] fix: values in lists can be in files too

---
 src/fedservice/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fedservice/utils.py b/src/fedservice/utils.py
index 4027b03..457be87 100644
--- a/src/fedservice/utils.py
+++ b/src/fedservice/utils.py
@@ -312,8 +312,8 @@ def load_values_from_file(config):
             for v in val:
                 if isinstance(v, dict):
                     _list.append(load_values_from_file(v))
-                elif isinstance(val, str) and val.startswith("file:"):
-                    res[key] = _import(val)
+                elif isinstance(v, str) and v.startswith("file:"):
+                    _list.append(_import(v))
                 else:
                     _list.append(v)
             res[key] = _list
-- 
2.43.0


From 0191cd9f893bc5a4b17a6352724a6094b78bf307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:15 +0000
Subject: [PATCH 83/94] fix: an OAuth2 client gets its default services however
 its type is given

---
 src/fedservice/appclient/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fedservice/appclient/__init__.py b/src/fedservice/appclient/__init__.py
index b0d14d9..6f922af 100644
--- a/src/fedservice/appclient/__init__.py
+++ b/src/fedservice/appclient/__init__.py
@@ -88,7 +88,7 @@ class ClientEntity(ClientUnit):
         if not _srvs:
             if self.client_type == "oidc":
                 _srvs = COMBINED_DEFAULT_OIDC_SERVICES
-            elif client_type == "oauth2":
+            elif self.client_type == "oauth2":
                 _srvs = COMBINED_DEFAULT_OAUTH2_SERVICES
 
         self._service = init_services(service_definitions=_srvs, upstream_get=self.unit_get)
-- 
2.43.0


From 3c9cf303fc97ab7690898edaec03bd5a165771f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:03 +0000
Subject: [PATCH 84/94] fix: what is added to the trust anchors or trust marks
 of one entity must not be added to others'

---
 src/fedservice/utils.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/fedservice/utils.py b/src/fedservice/utils.py
index 457be87..d7e5e86 100644
--- a/src/fedservice/utils.py
+++ b/src/fedservice/utils.py
@@ -140,6 +140,8 @@ def make_federation_entity(entity_id: str,
     if trust_anchors:
         if "class" in trust_anchors and "kwargs" in trust_anchors:
             trust_anchors = execute(trust_anchors)
+        else:  # What is added later is not for other entities to trust
+            trust_anchors = dict(trust_anchors)
 
         for id, jwk in trust_anchors.items():
             fe.keyjar = import_jwks(fe.keyjar, jwk, id)
@@ -158,6 +160,8 @@ def make_federation_entity(entity_id: str,
             fe.server.policy[id] = info
 
     if trust_marks:
+        if isinstance(trust_marks, list):
+            trust_marks = trust_marks.copy()
         fe.context.trust_marks = trust_marks
 
     if trust_mark_entity:
@@ -232,6 +236,8 @@ def make_federation_combo(entity_id: str,
     if trust_anchors:
         if "class" in trust_anchors and "kwargs" in trust_anchors:
             trust_anchors = execute(trust_anchors)
+        else:  # What is added later is not for other entities to trust
+            trust_anchors = dict(trust_anchors)
 
         for id, jwk in trust_anchors.items():
             federation_entity.keyjar = import_jwks(federation_entity.keyjar, jwk, id)
@@ -253,6 +259,8 @@ def make_federation_combo(entity_id: str,
         if "class" in trust_marks:
             federation_entity.context.trust_marks = execute(trust_marks)
         else:
+            if isinstance(trust_marks, list):
+                trust_marks = trust_marks.copy()
             federation_entity.context.trust_marks = trust_marks
 
     if trust_mark_issuers:
-- 
2.43.0


From 372820dd53948744a6b8ab9fd11c6da67f81a4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:59 +0000
Subject: [PATCH 85/94] fix: values in lists of lists can be in files too

---
 src/fedservice/utils.py | 33 ++++++++++++++-------------------
 1 file changed, 14 insertions(+), 19 deletions(-)

diff --git a/src/fedservice/utils.py b/src/fedservice/utils.py
index d7e5e86..320e2c5 100644
--- a/src/fedservice/utils.py
+++ b/src/fedservice/utils.py
@@ -308,26 +308,21 @@ def _import(val):
     raise ValueError("Unknown file type")
 
 
-def load_values_from_file(config):
-    res = {}
-    for key, val in config.items():
-        if isinstance(val, str) and val.startswith("file:"):
-            res[key] = _import(val)
-        elif isinstance(val, dict):
-            res[key] = load_values_from_file(val)
-        elif isinstance(val, list):
-            _list = []
-            for v in val:
-                if isinstance(v, dict):
-                    _list.append(load_values_from_file(v))
-                elif isinstance(v, str) and v.startswith("file:"):
-                    _list.append(_import(v))
-                else:
-                    _list.append(v)
-            res[key] = _list
+def _load_value(val):
+    if isinstance(val, str) and val.startswith("file:"):
+        return _import(val)
+    elif isinstance(val, dict):
+        return load_values_from_file(val)
+    elif isinstance(val, list):
+        return [_load_value(v) for v in val]
+    else:
+        return val
 
-    for k, v in res.items():
-        config[k] = v
+
+def load_values_from_file(config):
+    for key, val in list(config.items()):
+        if isinstance(val, (str, dict, list)):
+            config[key] = _load_value(val)
 
     return config
 
-- 
2.43.0


From d02f81e3ddc3c3ae870f0dda58da14a046c81ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:56 +0000
Subject: [PATCH 86/94] fix: a subject named by its quoted entity ID is
 published with its keys

---
 src/fedservice/fetch_entity_statement/__init__.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/fedservice/fetch_entity_statement/__init__.py b/src/fedservice/fetch_entity_statement/__init__.py
index 21e3ef2..b95bc4b 100644
--- a/src/fedservice/fetch_entity_statement/__init__.py
+++ b/src/fedservice/fetch_entity_statement/__init__.py
@@ -23,15 +23,13 @@ class FetchEntityStatement:
         raise NotImplementedError()
 
     def make_entity_id(self, netloc):
+        if netloc.startswith("https%3A%2F%2F"):  # A quoted entity ID
+            return unquote_plus(netloc)
         return self.entity_id_pattern.format(netloc)
 
     def create_entity_statement(self, sub, **kwargs):
         _info = self.gather_info(sub)
         _info.update(kwargs)
         _info['jwks'] = self.keyjar.export_jwks(issuer_id=self.make_entity_id(sub))
-        if sub.startswith("https"):
-            return create_entity_statement(self.make_entity_id(self.iss), unquote_plus(sub),
-                                           self.keyjar, **_info)
-
         return create_entity_statement(self.make_entity_id(self.iss), self.make_entity_id(sub),
                                        self.keyjar, **_info)
-- 
2.43.0


From 7275f2a0ac53f02396a351a0ca02acb2881c14c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:56 +0000
Subject: [PATCH 87/94] fix: the issuer's keys are kept as the issuer's, not
 the subject's

---
 src/fedservice/fetch_entity_statement/fs2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fedservice/fetch_entity_statement/fs2.py b/src/fedservice/fetch_entity_statement/fs2.py
index a59c346..314dbc5 100644
--- a/src/fedservice/fetch_entity_statement/fs2.py
+++ b/src/fedservice/fetch_entity_statement/fs2.py
@@ -40,7 +40,7 @@ class FSFetchEntityStatement(FetchEntityStatement):
         iss_id = self.make_entity_id(self.iss)
         logger.debug('Statement Issuer ID: %s', iss_id)
         if iss_id not in self.keyjar:
-            self.load_jwks(self.iss, self.iss, self.make_entity_id(sub))
+            self.load_jwks(self.iss, self.iss, iss_id)
 
         if sub.startswith("https%3A%2F%2F"):
             sub_id = unquote_plus(sub)
-- 
2.43.0


From bc5f6763e848b7b0c74e829343cf165a0c26795c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:56 +0000
Subject: [PATCH 88/94] fix: the statement that is fetched is the publisher's,
 about the subject

---
 src/fedservice/fetch_entity_statement/fs2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fedservice/fetch_entity_statement/fs2.py b/src/fedservice/fetch_entity_statement/fs2.py
index 314dbc5..b35562b 100644
--- a/src/fedservice/fetch_entity_statement/fs2.py
+++ b/src/fedservice/fetch_entity_statement/fs2.py
@@ -101,6 +101,6 @@ class FSPublisher():
         else:
             _qs = parse_qs(p.query)
             pt = urlparse(_qs['sub'][0])
-            _jws = self._create_entity_statement(p.netloc, pt.netloc)
+            _jws = self._create_entity_statement(pt.netloc, p.netloc)
 
         return MockResponse(200, f"{_jws}", headers={'Content-Type': "application/jose"})
-- 
2.43.0


From e5c64c853439aa591ad2eaaf025645baaf2f4550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:48 +0000
Subject: [PATCH 89/94] fix: asked for what is not published the publisher
 answers so

---
 src/fedservice/fetch_entity_statement/fs2.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/fedservice/fetch_entity_statement/fs2.py b/src/fedservice/fetch_entity_statement/fs2.py
index b35562b..60000f7 100644
--- a/src/fedservice/fetch_entity_statement/fs2.py
+++ b/src/fedservice/fetch_entity_statement/fs2.py
@@ -96,11 +96,14 @@ class FSPublisher():
 
     def get(self, url, **kwargs):
         p = urlparse(url)
-        if p.path == '/.well-known/openid-federation':
-            _jws = self._create_entity_configuration(p.netloc)
-        else:
-            _qs = parse_qs(p.query)
-            pt = urlparse(_qs['sub'][0])
-            _jws = self._create_entity_statement(pt.netloc, p.netloc)
+        try:
+            if p.path == '/.well-known/openid-federation':
+                _jws = self._create_entity_configuration(p.netloc)
+            else:
+                _qs = parse_qs(p.query)
+                pt = urlparse(_qs['sub'][0])
+                _jws = self._create_entity_statement(pt.netloc, p.netloc)
+        except FileNotFoundError:  # Nothing is published about that entity
+            return MockResponse(404, "Not found", headers={'Content-Type': "text/plain"})
 
         return MockResponse(200, f"{_jws}", headers={'Content-Type': "application/jose"})
-- 
2.43.0


From 58e93fcba81df18327284a48f901b5310f40ecf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:53 +0000
Subject: [PATCH 90/94] fix: trust mark issuers and owners that are configured
 are published

---
 src/fedservice/entity/__init__.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/fedservice/entity/__init__.py b/src/fedservice/entity/__init__.py
index f0d5134..3209b96 100644
--- a/src/fedservice/entity/__init__.py
+++ b/src/fedservice/entity/__init__.py
@@ -161,6 +161,13 @@ class FederationEntity(Unit):
         metadata = _claims.get_server_metadata(endpoints=self.get_all_endpoints(),
                                                metadata_schema=message.FederationEntity)
 
+        # Those who may issue, and those who own, trust marks. Normally stated by trust anchors.
+        for claim, attribute in [("trust_mark_issuers", "trust_mark_issuers"),
+                                 ("trust_mark_owners", "trust_mark_owner")]:
+            _info = dict((getattr(_context, attribute, None) or {}).items())
+            if _info and claim not in metadata:
+                metadata[claim] = _info
+
         return {entity_type: metadata}
 
     def get_preferences(self):
-- 
2.43.0


From ebe9198f6fbe9d71e58e835ffa17c05f30d4dd30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:51 +0000
Subject: [PATCH 91/94] fix: a list filter that is false in the query isn't
 true

---
 src/fedservice/entity/server/list.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/fedservice/entity/server/list.py b/src/fedservice/entity/server/list.py
index 965f439..3ac4ab0 100644
--- a/src/fedservice/entity/server/list.py
+++ b/src/fedservice/entity/server/list.py
@@ -23,6 +23,11 @@ class List(Endpoint):
         Endpoint.__init__(self, upstream_get, **kwargs)
         self.extended = extended
 
+    @staticmethod
+    def is_true(val):
+        # Over HTTP parameter values are strings
+        return val.lower() != "false" if isinstance(val, str) else bool(val)
+
     @staticmethod
     def trust_mark_id(trust_mark):
         # Trust marks are normally signed JWTs
@@ -46,7 +51,7 @@ class List(Endpoint):
             if entity_type:
                 if entity_type not in conf['metadata']:
                     matched = False
-            if trust_marked:
+            if self.is_true(trust_marked):
                 if not conf.get('trust_marks'):
                     matched = False
             if trust_mark_id:
@@ -67,7 +72,7 @@ class List(Endpoint):
             subordinate_conf = None
             # I know about entity_types and intermediate or not from the registration
             for entity_id, item in _db.items():
-                if request.get("intermediate") and not item.get("intermediate"):
+                if self.is_true(request.get("intermediate")) and not item.get("intermediate"):
                     continue
                 if "entity_type" in request:
                     _types = item.get("entity_types", item.get("entity_type", []))
@@ -78,7 +83,7 @@ class List(Endpoint):
                 matched_entity_ids.add(entity_id)
 
             # I don't expect to know about trust marks from the registration
-            if "trust_marked" in request or "trust_mark_id" in request:
+            if self.is_true(request.get("trust_marked")) or "trust_mark_id" in request:
                 subordinate_conf = self.collect_subordinates()
                 matched_entity_ids.intersection_update(
                     self.filter(subordinates=subordinate_conf, **request))
-- 
2.43.0


From e1e5df75ccd80aa7c1a48764e1310d6cfa9e4d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:25:30 +0000
Subject: [PATCH 92/94] fix: a fetched configuration is the one that's
 published

---
 src/fedservice/entity/server/fetch.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/fedservice/entity/server/fetch.py b/src/fedservice/entity/server/fetch.py
index a2f8fa9..07d7cef 100644
--- a/src/fedservice/entity/server/fetch.py
+++ b/src/fedservice/entity/server/fetch.py
@@ -3,6 +3,7 @@ import logging
 from idpyoidc.message import oidc
 from idpyoidc.server.endpoint import Endpoint
 
+from fedservice.entity.utils import get_federation_entity
 from fedservice.entity_statement.create import create_entity_statement
 from fedservice.exception import UnknownEntity
 from fedservice.message import EntityStatement
@@ -36,14 +37,24 @@ class Fetch(Endpoint):
         _sub = request.get("sub")
         _keyjar = self.upstream_get('attribute', 'keyjar')
         if not _sub or _sub == _issuer:
-            _server = self.upstream_get("server")
-            _entity = _server.upstream_get('unit')
-            _metadata = _entity.get_metadata()
+            # The same as what's published at the well-known location
+            _entity = get_federation_entity(self)
+            if _entity.upstream_get:
+                _metadata = _entity.upstream_get("metadata")
+            else:
+                _metadata = _entity.get_metadata()
+
+            if _entity.context.trust_marks:
+                args = {"trust_marks": _entity.context.get_trust_marks()}
+            else:
+                args = {}
+
             _es = create_entity_statement(iss=_entity.context.entity_id,
                                           sub=_entity.context.entity_id,
                                           key_jar=_keyjar,
                                           metadata=_metadata,
-                                          authority_hints=self.upstream_get('authority_hints'))
+                                          authority_hints=_entity.get_authority_hints(),
+                                          **args)
         else:
             _server = self.upstream_get("unit")
             # Contains jwks and possibly entity type and authority_hints
-- 
2.43.0


From d64075ba15d618be4abbc30ed2eeea068c63f714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:25:30 +0000
Subject: [PATCH 93/94] fix: authority hints and trust marks kept in files or
 by functions are what statements contain

---
 src/fedservice/appclient/oidc/registration.py | 2 +-
 src/fedservice/entity/context.py              | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fedservice/appclient/oidc/registration.py b/src/fedservice/appclient/oidc/registration.py
index 7b1544f..21f0297 100644
--- a/src/fedservice/appclient/oidc/registration.py
+++ b/src/fedservice/appclient/oidc/registration.py
@@ -78,7 +78,7 @@ class Registration(registration.Registration):
 
         kwargs = {}
         if _context.trust_marks:
-            kwargs["trust_marks"] = _context.trust_marks
+            kwargs["trust_marks"] = _context.get_trust_marks()
 
         _jws = _context.create_entity_statement(
             iss=_entity_id,
diff --git a/src/fedservice/entity/context.py b/src/fedservice/entity/context.py
index 20467b1..932baee 100644
--- a/src/fedservice/entity/context.py
+++ b/src/fedservice/entity/context.py
@@ -115,7 +115,7 @@ class FederationContext(ImpExp):
         key_jar = key_jar or self.upstream_get("attribute", "keyjar")
 
         if not authority_hints:
-            authority_hints = self.authority_hints
+            authority_hints = self.get_authority_hints()
         if not lifetime:
             lifetime = self.default_lifetime
 
-- 
2.43.0


From 7b1b0c77078d15a1490e7553ef0e93cf02dfbd25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:04:05 +0000
Subject: [PATCH 94/94] fix: a trust chain refused by its policies doesn't
 stand in the way of the others

---
 src/fedservice/entity/function/__init__.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/fedservice/entity/function/__init__.py b/src/fedservice/entity/function/__init__.py
index 4b5ace5..f5a7de1 100644
--- a/src/fedservice/entity/function/__init__.py
+++ b/src/fedservice/entity/function/__init__.py
@@ -137,9 +137,18 @@ def apply_policies(unit, trust_chains):
     _policy_applier = get_federation_entity(unit).function.policy
 
     res = []
+    error = None
     for trust_chain in trust_chains:
-        _policy_applier(trust_chain)
+        try:
+            _policy_applier(trust_chain)
+        except Exception as err:
+            # The policies of one trust chain must not prevent the use of the others
+            logger.error(f"Trust chain refused by policy: {err}")
+            error = err
+            continue
         res.append(trust_chain)
+    if error and not res:
+        raise error
     return res
 
 
-- 
2.43.0

