COMMON_NOTE = ("Every path of the real code within the stated bounds is executed symbolically and its "
               "assertions are decided by z3; counterexamples and a sample of path witnesses are re-run on "
               "the un-instrumented code. Trusts: the engine in /verif/sx, z3, the environment models "
               "listed in the evidence's assumptions. Nothing is claimed outside the bounds. ")
P = "src/fedservice/"
PROPS = [
 dict(id="C01", title="Combining metadata policies only ever restricts",
  statement="Combining a superior's metadata policy with a subordinate's either is refused with a policy error or "
  "gives a policy that is at least as strict for every claim: allowed-value sets only shrink and never become "
  "empty, values to add are never lost, a fixed value or a default the superior stated stays as it is, an "
  "essential claim never becomes optional, and a value a subordinate fixes respects what the superior demands. "
  "Combinations the federation rules forbid (a fixed value next to other demands, one-of next to subset/superset, "
  "different fixed values or defaults, defaults or additions outside the allowed set, disjoint sets) are refused, "
  "compatible ones are accepted, and a claim only one side speaks about keeps its policy.",
  over=["inputs"], text="for every pair of operator dictionaries over the seven policy operators and all values",
  why="Policies are open-ended combinations of seven operators with arbitrary values; the tests combine about "
  "twenty fixed pairs (and are not runnable in the pinned environment).",
  files=[P+"entity/function/policy.py"],
  mech=[("combine", P+"entity/function/policy.py:combine"), ("combine_claim_policy", P+"entity/function/policy.py:combine_claim_policy")],
  observe=["combine()", "PolicyError"], note=COMMON_NOTE),
 dict(id="C02", title="Applying a policy yields exactly what the policy leaves, or is refused",
  statement="When a combined metadata policy is applied to a subject's metadata, each governed claim ends up with "
  "exactly the value the federation's operator semantics prescribe (value, add, default, one_of, subset_of, "
  "superset_of, essential, in that order), and if the metadata cannot be made to fulfil the policy it is refused "
  "with a policy error. Claims without policy, and the policies of other claims, are unaffected; a value superiors "
  "assert is added only where the subject itself is silent.",
  over=["inputs"], text="for every operator dictionary and every absent, single or list-valued claim",
  why="Tests apply a handful of fixed policies; the guarantee is about every combination of operators, value sets and subject values.",
  files=[P+"entity/function/policy_operator.py", P+"entity/function/policy.py"],
  mech=[("apply_metadata_policy", P+"entity/function/policy.py"), ("operators", P+"entity/function/policy_operator.py")],
  observe=["TrustChainPolicy.apply_policy()"], note=COMMON_NOTE),
 dict(id="C03", title="Effective metadata honours every superior in the trust chain",
  statement="The metadata computed for a subject at the end of a trust chain satisfies the policy of every superior "
  "statement in that chain, or the chain is refused with a policy error; contradicting metadata or policies of two "
  "superiors are refused. Only policies of the matching entity type count, entity types the subject does not have "
  "get no metadata, and no value appears that neither the subject nor a superior supplied.",
  over=["inputs", "configurations"], text="for every chain of up to four statements with policies/metadata for a claim at any level",
  why="Tests run a few fixed federations; which statement carries which operator, and with which values, is open.",
  files=[P+"entity/function/policy.py"],
  mech=[("TrustChainPolicy.gather_policies", P+"entity/function/policy.py"), ("TrustChainPolicy.__call__", P+"entity/function/policy.py")],
  observe=["TrustChain.metadata"], note=COMMON_NOTE),
 dict(id="C04", title="Only properly signed, linked, unexpired chains from an anchor are accepted",
  statement="A trust chain is accepted only if its first statement is signed by a key configured for one of the "
  "entity's trust anchors, each further statement is issued by the subject of the statement above and signed by a key "
  "that statement lists for it, no statement is unsigned, altered or expired; every such chain is accepted, with its "
  "anchor, issuer path and earliest expiry reported truthfully. A refused chain leaves the entity's key store alone, "
  "and no chain adds keys for the entity itself or for an anchor that has not published them itself, while the keys an accepted chain lists for another entity are that entity's from then on.",
  over=["inputs", "histories"], text="for every chain of up to four statements with arbitrary issuers, subjects, signers, "
  "keys, key ids, integrity and expiry, every clock, and histories of two chains",
  why="Tests verify a few honest chains; the guarantee is about every forged, mis-linked or stale one.",
  files=[P+"entity/function/verifier.py"],
  mech=[("TrustChainVerifier", P+"entity/function/verifier.py"), ("verify_trust_chains", P+"entity/function/__init__.py")],
  observe=["verify_trust_chain()", "TrustChain.anchor/iss_path/exp", "the entity's KeyJar"], note=COMMON_NOTE),
 dict(id="C05", title="No chain that violates a superior's constraints is accepted",
  statement="A verified chain meets its constraints only if no subordinate statement in it has more intermediates below it than its "
  "issuer's max_path_length allows, and every entity below a statement with naming constraints has a host name that is "
  "inside every superior's permitted list (if stated) and outside every superior's excluded list. Chains that satisfy "
  "all constraints are accepted.",
  over=["inputs"], text="for every chain of up to five statements with path-length and naming constraints at any level",
  why="Tests check two fixed chains; which level restricts what, and how names relate, is open.",
  files=[P+"entity_statement/constraints.py"],
  mech=[("meets_restrictions", P+"entity_statement/constraints.py"), ("calculate_path_length", P+"entity_statement/constraints.py")],
  observe=["meets_restrictions()"], note=COMMON_NOTE),
 dict(id="C06", title="Stored trust chains: never used once expired, chosen by configured priority",
  statement="Trust chains and verified metadata an entity hands out from its store are never ones whose expiry has passed: "
  "they are collected anew, and nothing is handed out if no valid chain can be had. Among several chains the one whose anchor comes "
  "first in the configured priority list is picked (any one if none is listed), stored chains are kept per entity and "
  "anchor with the shortest chain preferred, and exporting a chain (leaf first) leaves the stored chain unchanged.",
  over=["histories", "inputs"], text="for every sequence of clock readings, expiries, renewals, chain lists and priority lists",
  why="Tests run within one second of a single collection, and pick from one or two chains.",
  files=[P+"entity/__init__.py", P+"entity_statement/statement.py", P+"__init__.py"],
  mech=[("get_trust_chains", P+"entity/__init__.py"), ("pick_trust_chain", P+"entity/__init__.py"),
  ("chains2dict", P+"entity_statement/statement.py"), ("save_trust_chains", P+"__init__.py")],
  observe=["FederationEntity.get_trust_chains()", "get_verified_metadata()", "pick_trust_chain()", "pick_from_stored_trust_chains()", "TrustChain.export_chain()"], note=COMMON_NOTE),
 dict(id="C07", title="Resolving an entity finds exactly its valid trust chains, and terminates",
  statement="Resolving an entity (get_verified_trust_chains) returns exactly one chain for every loop-free path of superiors from the "
  "entity to a configured trust anchor along which all statements are valid, and none else, for any federation, also one with "
  "cyclic authority hints, roots that are not trusted, or entities that share a host. A superior that is unreachable, answers with garbage or issues a wrong, "
  "forged or stale statement (or one with policies that cannot be obeyed) only loses the chains through it; and what is cached never makes a later resolution use an expired "
  "statement or miss a renewed one.",
  over=["configurations", "fault schedules", "histories"], text="for every federation of up to seven entities, single faults of 15 kinds, "
  "repeated resolutions and symbolic clocks and expiries",
  why="Tests resolve a handful of honest, acyclic federations at one moment.",
  files=[P+"entity/function/trust_chain_collector.py", P+"entity/function/__init__.py", P+"entity/function/verifier.py", P+"entity_statement/cache.py"],
  mech=[("TrustChainCollector.collect_tree", P+"entity/function/trust_chain_collector.py"), ("tree2chains", P+"entity/function/__init__.py"),
  ("ESCache", P+"entity_statement/cache.py")],
  observe=["get_verified_trust_chains()", "HTTP requests made"], note=COMMON_NOTE),
 dict(id="C08", title="Entities are built as configured, and apart from each other",
  statement="An entity or combination of entities made from a configuration has exactly the endpoints, services, functions, trust anchors (with the keys given), subordinates, "
  "policies, trust marks, claims, time allowances and HTTP parameters that configuration gives it: the default ones when nothing is said, none when the list is empty. "
  "What one entity is made with, or has registered later, never shows in another one made before or after it, also not when both are made from the same configuration, which is "
  "left as it was. Values that are said to be in a file are read from it wherever they are in a configuration.",
  over=["configurations", "inputs", "histories"], text="for every pair of configurations within the bounds, in either order, with shared or separate configuration objects, and every clock",
  why="Tests build one federation at a time and never look at what building one entity does to the next.",
  files=[P+"build_entity.py", P+"utils.py", P+"combo/__init__.py", P+"appclient/__init__.py", P+"defaults.py"],
  mech=[("FederationEntityBuilder", P+"build_entity.py"), ("make_federation_entity", P+"utils.py"), ("make_federation_combo", P+"utils.py"),
  ("load_values_from_file", P+"utils.py"), ("Combo", P+"combo/__init__.py")],
  observe=["make_federation_entity()", "make_federation_combo()", "load_values_from_file()"], note=COMMON_NOTE),
 dict(id="C09", title="Messages that are incomplete, untimely or not understood are refused",
  statement="An entity statement or trust mark is accepted by verification only with all its required claims (iss, sub, iat, and exp or id), issued by now, unexpired, "
  "and from the issuer and about the entity that is expected; a complete, timely one is accepted. One with an extension claim or policy operator that it declares critical and "
  "that is not known is refused, and so is a trust chain with such a critical declaration in any statement, which then brings no keys. A status request tells which trust mark it "
  "is about, client information with a secret tells when that expires, and every other request or metadata message is accepted only with its required members.",
  over=["inputs"], text="for every subset of claims and members, time, clock and critical or known name within the bounds",
  why="Tests verify a few complete messages and one unknown critical extension.",
  files=[P+"message.py", P+"entity/function/verifier.py"],
  mech=[("EntityStatement.verify", P+"message.py"), ("TrustMark.verify", P+"message.py"), ("Policy.verify", P+"message.py"),
  ("unknown_critical_extensions", P+"message.py"), ("TrustChainVerifier.__call__", P+"entity/function/verifier.py")],
  observe=["Message.verify()", "TrustChainVerifier()"], note=COMMON_NOTE),
 dict(id="C10", title="Published statements say exactly what is configured and registered, self-signed",
  statement="Everything an entity publishes about itself or a subordinate is issued in its own name, signed with its own key, "
  "issued now and not yet expired, and has no private key in it; its configuration has exactly its own public keys, endpoints, authority hints, claims, "
  "trust marks, and trust mark issuers and owners. A fetched statement is only ever about a registered subordinate, has exactly the keys, authority hints (or the issuer if none) and constraints registered "
  "for it, and the metadata and policies set for that entity, or else those set for its entity types. Answering requests changes nothing "
  "that is registered, whatever was asked before.",
  over=["inputs", "histories", "configurations"], text="for every request, registered record and policy set within the bounds, and histories of up to three requests",
  why="Tests fetch one statement once; leakage between requests, policies and keys shows only in combinations and sequences.",
  files=[P+"entity/server/fetch.py", P+"entity/server/entity_configuration.py", P+"entity_statement/create.py", P+"entity/context.py"],
  mech=[("Fetch.process_request", P+"entity/server/fetch.py"), ("EntityConfiguration.process_request", P+"entity/server/entity_configuration.py"),
  ("create_entity_statement", P+"entity_statement/create.py")],
  observe=["fetch and entity_configuration endpoints"], note=COMMON_NOTE),
 dict(id="C12", title="Listing returns exactly the subordinates that match every filter",
  statement="The list endpoint returns all registered subordinates when no filter is given, and otherwise exactly those that match every filter "
  "given (entity_type and intermediate as registered; trust_marked and trust_mark_id as published in the subordinate's own properly signed "
  "configuration). Subordinates that are unreachable or publish garbage or forgeries are left out of trust mark filtered listings "
  "without affecting the rest.",
  over=["inputs", "configurations", "fault schedules"], text="for every combination of filters, registered types, published trust marks and subordinate faults within the bounds",
  why="Tests list one or two subordinates with a single filter and no faults.",
  files=[P+"entity/server/list.py"], mech=[("List.process_request", P+"entity/server/list.py"), ("List.collect_subordinates", P+"entity/server/list.py")],
  observe=["list endpoint"], note=COMMON_NOTE),
 dict(id="C13", title="A resolve response is backed by a valid chain to the requested anchor",
  statement="The resolve endpoint answers exactly when the subject has a valid trust chain to the requested trust anchor, and then with a "
  "response signed by the resolver, about the subject, that is issued now and expires no later than any statement of the chain. The response contains that chain "
  "complete (configuration of the subject first), and the metadata that it yields with all policies applied, only of the requested type "
  "if one was asked for.",
  over=["configurations", "histories", "inputs"], text="for every federation of up to five entities, requested anchor and subject, clocks and expiries",
  why="Tests resolve one entity in one federation once.",
  files=[P+"entity/server/resolve.py", P+"entity/function/trust_chain_collector.py"],
  mech=[("Resolve.process_request", P+"entity/server/resolve.py")], observe=["resolve endpoint"], note=COMMON_NOTE),
 dict(id="C14", title="Trust marks are issued as specified and in the issuer's own name",
  statement="A trust mark issuer issues exactly the trust marks it has a specification for (an unknown id is refused and nothing is registered), each time: signed with its own federation key, "
  "issued by itself, now, of the requested id to the requested receiver, expiring after the specified lifetime (never, if there is none) and containing whatever else is specified - also when the same "
  "configuration is used for several issuers, when it issues again, and through the trust mark endpoint. Self signed trust marks are in addition about the entity itself, do expire, and are published in its entity configuration.",
  over=["inputs", "histories", "configurations"], text="for every specification, receiver, clock and sequence of issues within the bounds",
  why="Tests issue single trust marks from fixed configurations.",
  files=[P+"trust_mark_entity/entity.py", P+"trust_mark_entity/server/trust_mark.py"],
  mech=[("TrustMarkEntity.create_trust_mark", P+"trust_mark_entity/entity.py"), ("SelfSignedTrustMarkEntity", P+"trust_mark_entity/entity.py"), ("TrustMark endpoint", P+"trust_mark_entity/server/trust_mark.py")],
  observe=["create_trust_mark()", "trust_mark endpoint", "entity_configuration endpoint"], note=COMMON_NOTE),
 dict(id="C15", title="A trust mark counts only if its issuer and owner vouch for it now",
  statement="A trust mark verifies for a trust anchor exactly when it states issuer, subject, id and issue time, is issued by now and not expired, is about the entity asked for (if one is "
  "given), and is signed with a key that a currently valid trust chain from its issuer to that very anchor vouches for. "
  "If the anchor - in a configuration signed with its own configured keys - names an owner for the trust mark id, or the mark carries a delegation, there must be an unexpired "
  "delegation signed by that owner, from the owner, to the mark's issuer, for that id. Where the issuer is asked about a valid mark, it counts only if the issuer's "
  "status endpoint answers that this very mark is active.",
  over=["inputs", "histories", "configurations"], text="for every mark, signer, delegation, key change, federation, status answer, clock and expiry within the bounds",
  why="Tests verify two honest marks; the guarantee is about every forged, stale, stolen or undelegated one.",
  files=[P+"entity/function/trust_mark_verifier.py", P+"entity/__init__.py"],
  mech=[("TrustMarkVerifier", P+"entity/function/trust_mark_verifier.py"), ("verify_delegation", P+"entity/function/trust_mark_verifier.py"),
  ("FederationEntity.verify_trust_mark", P+"entity/__init__.py"), ("get_metadata", P+"entity/function/trust_chain_collector.py")],
  observe=["function.trust_mark_verifier()", "FederationEntity.verify_trust_mark()"], note=COMMON_NOTE),
 dict(id="C16", title="A trust mark issuer tells the truth about its trust marks",
  statement="The status endpoint says active exactly if the last trust mark of that id issued to that entity has not expired; asked about a certain issue time, only if one issued then is still valid; asked with a "
  "trust mark, only if the issuer itself signed it, unaltered, it has not expired and is registered. The trust mark list contains exactly the entities for which that is so, once each, or just the one asked for. "
  "This holds for registers in memory and in files, also after a restart or a dump and load.",
  over=["histories", "inputs"], text="for every history of issues, lifetime, clock and question within the bounds",
  why="Tests ask about one mark right after it was issued.",
  files=[P+"trust_mark_entity/__init__.py", P+"trust_mark_entity/server/trust_mark_status.py", P+"trust_mark_entity/server/trust_mark_list.py", P+"trust_mark_entity/entity.py"],
  mech=[("FileDB, SimpleDB", P+"trust_mark_entity/__init__.py"), ("TrustMarkStatus", P+"trust_mark_entity/server/trust_mark_status.py"), ("TrustMarkList", P+"trust_mark_entity/server/trust_mark_list.py"),
  ("unpack_trust_mark", P+"trust_mark_entity/entity.py")],
  observe=["trust_mark_status endpoint", "trust_mark_list endpoint"], note=COMMON_NOTE),
 dict(id="C17", title="Automatic registration needs a valid trust chain of the client's own",
  statement="An authorization or pushed authorization request of an unregistered client is served only if automatic registration is supported "
  "and the client has a valid trust chain to a configured trust anchor, published or provided, that is about that very client and starts with what the client itself signed; otherwise "
  "it is refused and nobody is registered and no keys are taken in. The client is then registered under its own entity id with the metadata "
  "and only the keys that the chain yields after all policies, is not served once that chain and its renewals have expired, and only a holder of those keys can speak for it where "
  "client authentication is used. Clients that are registered in other ways are left as they are.",
  over=["inputs", "histories", "configurations"], text="for the OpenID Connect and OAuth2 endpoints and every chain, fault, policy, clock and expiry within the bounds",
  why="Tests register one well-behaved client once; mixed-up, forged, foreign, expired and renewed chains are never tried.",
  files=[P+"appserver/oidc/authorization.py", P+"appserver/oauth2/authorization.py", P+"appserver/oauth2/pushed_authorization.py", P+"appserver/__init__.py", P+"entity/utils.py"],
  mech=[("do_automatic_registration", P+"appserver/oidc/authorization.py"), ("do_automatic_registration", P+"appserver/oauth2/authorization.py"),
  ("do_automatic_registration", P+"appserver/oauth2/pushed_authorization.py")],
  observe=["authorization and pushed_authorization endpoints"], note=COMMON_NOTE),
 dict(id="C18", title="Explicit registration registers what a valid chain to the request yields",
  statement="The registration endpoint of an OpenID provider or authorization server accepts a registration request exactly when the request is a statement of the "
  "client about itself, signed with a key that a valid trust chain to a configured trust anchor vouches for, and unexpired like all statements of the chain (the client's configuration being published); a refused request changes nothing. "
  "The client is then registered with the metadata and only the keys that the request yields with all policies of that chain applied, and the response is a "
  "statement of the server, signed with its federation key, about and for the client, with its client id, that metadata, and the trust anchor of the chain that was picked by priority.",
  over=["inputs", "histories", "configurations"], text="for every kind of request, chain fault, policy, trust anchor priority, clock and expiry within the bounds",
  why="Tests register one well-behaved client; forged and foreign requests, policies, expiry and re-registrations are never tried.",
  files=[P+"appserver/oidc/registration.py", P+"appserver/oauth2/registration.py"],
  mech=[("Registration.process_request", P+"appserver/oidc/registration.py"), ("Registration.process_request", P+"appserver/oauth2/registration.py")],
  observe=["registration endpoint"], note=COMMON_NOTE),
 dict(id="C19", title="A client relies only on registration responses its own chain allows",
  statement="A client accepts an explicit registration response exactly when it is an unexpired statement about the client itself, signed with keys that a valid trust chain of "
  "the response's issuer vouches for, and names a configured trust anchor in which both that chain and a valid chain of the client end. The registration the client then uses is the metadata of the response "
  "with the policies of the client's own chain applied; a refused response changes nothing. Its registration request is its own statement, signed with its federation key, issued now, "
  "with its authority hints, its metadata and only public keys.",
  over=["inputs", "histories", "configurations"], text="for every kind of response, named trust anchor, chain fault, policy, clock and expiry within the bounds",
  why="Tests parse one good response per protocol.",
  files=[P+"appclient/oidc/registration.py", P+"appclient/oauth2/registration.py"],
  mech=[("parse_federation_registration_response", P+"appclient/oidc/registration.py"), ("parse_federation_registration_response", P+"appclient/oauth2/registration.py"),
  ("create_entity_statement", P+"appclient/oidc/registration.py")],
  observe=["Registration.parse_response()", "Registration.construct()"], note=COMMON_NOTE),
 dict(id="C20", title="Requests go to the right endpoint and only genuine answers are accepted",
  statement="A client asks for an entity configuration at the entity's well-known URL (under its path for a tenant), for an entity statement at the fetch endpoint in the issuer's current configuration, "
  "for a list at the list endpoint in the entity's verified metadata or not at all, and for a resolution, trust mark list or status at the given endpoint, each time with exactly what was asked. "
  "Whatever its content type, an entity configuration, entity statement or resolve response is accepted exactly when it is complete, in force, from the entity asked, about the entity asked about, and signed with "
  "a key known for its issuer; it is passed on as it was sent, and errors and refused answers change nothing.",
  over=["inputs", "histories"], text="for every answer, signer, time, content type, filter and federation within the bounds",
  why="Tests never send a forged, unsigned, foreign or late answer to the client, and look at few requests.",
  files=[P+"entity/client/__init__.py", P+"entity/client/entity_configuration.py", P+"entity/client/entity_statement.py", P+"entity/client/list.py",
  P+"entity/client/resolve.py", P+"entity/client/trust_mark_status.py", P+"entity/client/trust_mark_list.py", P+"entity/service.py", P+"entity/function/trust_anchor.py"],
  mech=[("FederationClient.do_request", P+"entity/client/__init__.py"), ("parse_request_response", P+"entity/client/__init__.py"),
  ("get_verified_endpoint", P+"entity/function/trust_anchor.py")],
  observe=["FederationEntity.do_request()", "HTTP requests made"], note=COMMON_NOTE),
 dict(id="C11", title="A client asks for authorization only by means the server supports, as itself",
  statement="A federation client that is not registered asks for authorization only if the server lists an authentication method, for the first of the client's configured ways of sending requests that the server "
  "lists at all, that the client can use: a request object at the authorization endpoint, or a pushed request where that is set up. Otherwise, unless it is registered, nothing is produced and nothing is sent. "
  "The request carries the registered client id, or the entity id of an unregistered client; the request object is signed with the client's own key, for that client id, says exactly what is asked, and one for the authorization endpoint is issued by the client and in force "
  "for as long as configured. A pushed request is sent once, and used only if the server took it.",
  over=["inputs", "configurations"], text="for every configuration, server metadata, registration, clock, lifetime and parameter within the bounds",
  why="Tests construct one request for one server.",
  files=[P+"appclient/oidc/authorization.py", P+"appclient/oauth2/authorization.py"],
  mech=[("_automatic_registration", P+"appclient/oidc/authorization.py"), ("_automatic_registration", P+"appclient/oauth2/authorization.py"), ("create_request", P+"appclient/oauth2/authorization.py")],
  observe=["Authorization.construct()", "HTTP requests made"], note=COMMON_NOTE),
 dict(id="C23", title="Registered clients keep to the rules for their kind and what the server can do",
  statement="An authorization server registers an OAuth2 client, explicitly or automatically, only if its redirect URIs suit its application type (web: https, or http for pure code clients, without fragment; native: a custom scheme, "
  "or http at localhost), its logout URI has no fragment, its request URIs no query, its policy, logo and terms of service are at the place of a redirect URI, and something it asks for in every list of capabilities is supported; a refused registration, here and at OpenID providers, changes "
  "nothing and does not keep the client from registering later. It is recorded with its URIs as given and with, and told about, no capabilities but those both sides have. Explicit registration gives an id and a secret never given before, expiring as "
  "configured; automatic registration gives no secret.",
  over=["inputs", "histories", "configurations"], text="for every URI, application type, capability, clock and secret lifetime within the bounds",
  why="Tests register clients that follow all the rules.",
  files=[P+"appserver/oauth2/registration.py", P+"appserver/oidc/registration.py"],
  mech=[("client_registration_setup", P+"appserver/oauth2/registration.py"), ("verify_redirect_uris", P+"appserver/oauth2/registration.py"),
  ("filter_client_request", P+"appserver/oauth2/registration.py")],
  observe=["registration endpoint", "authorization endpoint"], note=COMMON_NOTE),
 dict(id="C22", title="A login goes only to the provider a valid trust chain describes",
  statement="A relying party finds a provider exactly when it has a valid trust chain to a configured anchor (the preferred one, if there are several) and the provider names itself as issuer; it then knows the metadata and keys the chain yields, policies applied, and otherwise nothing. "
  "It registers only by a type both support: nothing is sent for automatic registration, and an explicit request goes to the registration endpoint in that metadata, after which the client id received is used. "
  "Users, codes and tokens go only to the endpoints in that metadata, each request with a fresh state and nonce. A callback counts only for a request made to that provider, and a login needs an ID token signed with the provider's "
  "keys, by it, for this client and request, in force, and about the same user as the user info; tokens and authentications last until they expire.",
  over=["inputs", "histories", "configurations"], text="for every fault, policy, key form, anchor preference, registration type, ID token, callback and clock within the bounds",
  why="The tests of logins drive one provider that does everything right.",
  files=[P+"appclient/stand_alone_client_entity.py", P+"appclient/__init__.py", P+"appclient/oidc/registration.py", P+"appclient/oauth2/registration.py", P+"appclient/oidc/authorization.py", P+"entity/__init__.py"],
  mech=[("_collect_metadata", P+"appclient/stand_alone_client_entity.py"), ("do_client_registration", P+"appclient/stand_alone_client_entity.py"),
  ("init_authorization", P+"appclient/stand_alone_client_entity.py"), ("finalize_auth", P+"appclient/stand_alone_client_entity.py")],
  observe=["RPHandler.begin()", "RPHandler.finalize()", "HTTP requests made"], note=COMMON_NOTE),
 dict(id="C21", title="Searching a federation names exactly the proper entities",
  statement="Asked who offers a credential below a configured trust anchor, a federation entity names exactly the entities of the asked type that the anchor, or an intermediate below it, lists, that have a valid "
  "trust chain, offer the asked credential type (if any), and carry a trust mark of the asked id (if any) that is about them, valid, and still active according to its issuer; none is named twice. The search ends even if intermediates list each "
  "other; an entity that lies, is broken or cannot be reached hides nobody but itself and what is only found below it, and cannot get keys accepted for anybody. No other anchor is searched, and nobody is asked then.",
  over=["inputs", "faults", "topologies"], text="for every federation, fault, lie, credential and trust mark within the bounds",
  why="There is no test of this search.",
  files=[P+"entity/server/who.py", P+"entity/__init__.py", P+"entity/function/trust_mark_verifier.py", P+"entity/client/list.py"],
  mech=[("process_request", P+"entity/server/who.py"), ("trawl", P+"entity/__init__.py"), ("verify_trust_mark", P+"entity/__init__.py")],
  observe=["Who.process_request()"], note=COMMON_NOTE),
 dict(id="C24", title="What is published from files is what the files say, about whom was asked",
  statement="A statement made from a publisher's files is issued and signed by that publisher, is about the entity asked for and holds that entity's public keys, and the metadata, "
  "metadata policy, constraints and authority hints its files state at that moment, plus or replaced by what the caller adds; nothing else. That holds whatever was asked for before, "
  "for host names, quoted entity IDs and any entity ID pattern, and for configurations and statements asked for over HTTP. About an entity without files nothing is said, which "
  "does not keep others from being resolved.",
  over=["inputs", "histories"], text="for every subset and content of the files, names, patterns and sequence of questions within the bounds",
  why="Tests publish a fixed directory in one order and never ask over HTTP, for a quoted entity ID or for one that is not there.",
  files=[P+"fetch_entity_statement/__init__.py", P+"fetch_entity_statement/fs2.py", P+"entity_statement/create.py"],
  mech=[("FetchEntityStatement.create_entity_statement", P+"fetch_entity_statement/__init__.py"), ("FSFetchEntityStatement.gather_info", P+"fetch_entity_statement/fs2.py"),
  ("FSPublisher.get", P+"fetch_entity_statement/fs2.py"), ("create_entity_statement", P+"entity_statement/create.py")],
  observe=["FSFetchEntityStatement.create_entity_statement()", "FSPublisher()"], note=COMMON_NOTE),
 dict(id="C25", title="What one entity asks another is answered with what that one has",
  statement="Between entities built by the library and served over HTTP, every request a client service makes is answered by the endpoint it is for: a configuration, a subordinate statement "
  "(issuer, subject, keys, constraints, policy), a list (by entity type, intermediate, trust marked, trust mark), the status of a trust mark by name or by token, a trust mark and the list of those that have it "
  "are what the other side has recorded or issued and in force at that moment, and what it does not have is refused. "
  "An entity is resolved exactly when every superior has it recorded with its keys, constraints are kept and policies can be combined; the metadata are its own plus what policies add, and a resolver answers the same.",
  over=["inputs", "histories"], text="for every record, policy, constraint, filter, trust mark history and time within the bounds",
  why="Tests mock the HTTP answers with statements made by hand, so that the two sides of an exchange never meet.",
  files=[P+"entity/__init__.py", P+"entity/client/__init__.py", P+"entity/server/fetch.py", P+"entity/server/list.py", P+"entity/server/resolve.py", P+"entity/client/trust_mark_status.py", P+"trust_mark_entity/server/trust_mark_status.py"],
  mech=[("FederationEntity.do_request", P+"entity/__init__.py"), ("List.process_request", P+"entity/server/list.py"), ("Fetch.process_request", P+"entity/server/fetch.py"),
  ("Resolve.process_request", P+"entity/server/resolve.py"), ("TrustMarkStatus.process_request", P+"trust_mark_entity/server/trust_mark_status.py")],
  observe=["FederationEntity.do_request()", "FederationEntity.get_verified_metadata()", "endpoint.parse_request/process_request/do_response"], note=COMMON_NOTE),
 dict(id="C26", title="An entity publishes all that it is, the same wherever one asks",
  statement="The configuration of an entity describes each of its parts (federation entity, OpenID provider, authorization server, relying party, OAuth2 client) and nothing else: what each part was configured with, "
  "its endpoints where they are served, itself as issuer, and the part's own keys or where they are; and it names the entity's superiors and has its trust marks and federation keys, however hints and trust marks are kept "
  "(list, function, file or store). It is the same, but for the time, at the configuration endpoint, fetched about itself, in an explicit registration and made by its context, whatever happened before; "
  "and others that resolve the entity learn all of it.",
  over=["inputs", "histories"], text="for every combination, configuration, way of asking and history within the bounds",
  why="Tests look at single parts, with hints and trust marks in lists, and never compare the ways a configuration can be had.",
  files=[P+"combo/__init__.py", P+"entity/server/entity_configuration.py", P+"entity/server/fetch.py", P+"entity/context.py", P+"appserver/__init__.py", P+"appclient/__init__.py", P+"appclient/oidc/registration.py"],
  mech=[("FederationCombo.get_metadata", P+"combo/__init__.py"), ("EntityConfiguration.process_request", P+"entity/server/entity_configuration.py"),
  ("Fetch.process_request", P+"entity/server/fetch.py"), ("FederationContext.create_entity_statement", P+"entity/context.py"), ("ServerEntity.get_metadata", P+"appserver/__init__.py")],
  observe=["EntityConfiguration.process_request()", "Fetch.process_request()", "Registration.construct()", "FederationEntity.get_verified_metadata()"], note=COMMON_NOTE),
]
NOT_APPLICABLE = {}
