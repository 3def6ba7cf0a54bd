#!/usr/bin/env python3-vt
"""Writes properties.jsonl (edited here, generated so that the schema is checked)."""
import json, sys, jsonschema
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],
                 "state":[{"name":n,"meaning":m,"where":w} for n,m,w in (state or [])],
                 "observe_at":observe or [], "hook_needed":None}})

I=["inputs"]; H=["inputs","histories"]; F=["inputs","fault_sequences"]
p("C01","Every mutation needs a valid token with the right capability",
 "No RPC changes stored entities or groups unless the request carries exactly one authorization token that the server's token service accepts, and that token's claims grant the capability documented for that RPC (or GLOBAL_ROOT). The only alternatives are the documented self-service and delegated-management paths (see C03). A refused request leaves every stored record unchanged and returns a non-nil error.",
 I,"every RPC request, every context metadata, every token-service verdict and every stored state",
 "The tests call each handler with one or two canned tokens from the null token service; a handler that skips the check, checks the wrong capability, or acts before checking for some request shape is not sampled.",
 ["internal/rpc2/util.go","internal/rpc2/entity.go","internal/rpc2/group.go","internal/rpc2/system.go","internal/rpc2/auth.go"],
 [("mutablePrequisitesMet","internal/rpc2/util.go"),("checkToken/isAuthorized","internal/rpc2/util.go")],
 observe=["Manager calls made by a handler","error returned"])
p("C02","A read-only server performs no mutation",
 "While the server runs in read-only mode, no RPC creates, changes or destroys any stored entity or group on behalf of the client, whatever token, capability, self-service or delegated-management right the caller has; every mutating RPC is refused with the read-only error.",
 ["inputs","configurations"],"every RPC, request and caller, with read-only mode on",
 "Tests try the read-only flag with one request per handler; the delegated-management and self-service alternatives in read-only mode are not tried.",
 ["internal/rpc2/util.go","internal/rpc2/entity.go","internal/rpc2/group.go","internal/rpc2/system.go","internal/rpc2/auth.go"],
 [("readonly flag","internal/rpc2/type.go"),("mutablePrequisitesMet","internal/rpc2/util.go")],
 observe=["Manager calls made by a handler","error returned"])
p("C03","Self-service and delegated management grant exactly what is documented",
 "An entity without the capability may change its own secret only by also presenting its current secret, may edit its own public keys, and may manage a group (metadata, untyped metadata, rules, membership) only when its valid token names an entity that is a member of the non-empty managing group recorded for that group. Possession of a valid token for one entity never authorises these actions on another entity's secret or keys or on a group that did not delegate to it, and an invalid or missing token authorises nothing.",
 I,"every request, token verdict, stored group and membership relation",
 "Tests drive these paths with a handful of fixed entities and inject claims directly in some cases, so they never exercise the token-to-claims path that production uses for delegation.",
 ["internal/rpc2/util.go","internal/rpc2/auth.go","internal/rpc2/entity.go","internal/rpc2/group.go"],
 [("manageByMembership","internal/rpc2/util.go"),("AuthChangeSecret","internal/rpc2/auth.go"),("EntityKeys","internal/rpc2/entity.go")])
p("C04","Tokens go only to the authenticated entity, with exactly its capabilities",
 "The server issues a token only when the secret in that same request has just been validated for the entity in that request; the token names exactly that entity and carries exactly the set of capabilities held directly by the entity or by any group it is a direct or indirect member of. If authentication or token generation fails, no token is returned and an error is.",
 I,"every request, every authentication verdict, every entity and membership",
 "Tests authenticate one or two fixture entities; they cannot cover all combinations of direct, group-derived and indirect capabilities.",
 ["internal/rpc2/auth.go","internal/rpc2/util.go"],
 [("AuthGetToken","internal/rpc2/auth.go"),("getCapabilitiesForEntity","internal/rpc2/util.go")])
p("C05","A capability check passes exactly when the claims grant it",
 "Checking claims for a capability succeeds if and only if that capability or GLOBAL_ROOT occurs in the claims' capability list, for any list length, order and content; empty claims grant nothing.",
 I,"every capability list and every requested capability",
 "Tests check a few lists; positions and combinations are unbounded.",
 ["internal/token/claims.go","internal/token/token.go"],[("Claims.HasCapability","internal/token")])
p("C06","Only unexpired tokens signed by the server's own key are accepted",
 "Token validation succeeds only for a token the JWT library verified with RSA against the server's configured public key; a token using any other signing-algorithm family, one whose verification fails or which is expired or not yet valid is rejected with an error and empty claims. A generated token carries the given entity and capabilities unchanged, with expiry and not-before taken from the configured lifetime and issue time, and without a private key no token is generated.",
 I,"every token string, key configuration and claim set",
 "Tests try a few malformed tokens; the space of token strings, headers and key states is unbounded.",
 ["internal/token/jwt/rsa.go"],[("Validate/Generate/keyfunc","internal/token/jwt/rsa.go")])
p("C07","Stored secrets never leave the server in a response",
 "No entity returned by any fetch, search or member-listing operation carries the stored secret: the secret field of every returned entity is absent or the fixed redaction marker, while its other fields equal the stored record; fetching never alters the stored record.",
 I,"every stored state and every query",
 "Tests look at a few fixture entities on some of the paths.",
 ["internal/tree/entity.go","internal/tree/search.go","internal/tree/membership.go"],
 [("safeCopyEntity","internal/tree/entity.go")])
p("C08","Secrets are stored only hashed and verified only through the crypto engine",
 "Every secret written to storage by creating an entity, bootstrapping or changing a secret is the output of the configured crypto engine for the secret in that request, never the plaintext, and if hashing fails nothing is stored. An authentication attempt succeeds only if the crypto engine accepts the presented secret against the secret stored for that very entity, and a successful or failed attempt does not change the stored record.",
 F,"every request secret, crypto verdict and stored state",
 "Tests use the no-op crypto engine, for which hashed and plain secrets coincide.",
 ["internal/tree/hooks/set-entity-secret.go","internal/tree/hooks/validate-entity-secret.go","internal/tree/hooks/create-entity-if-missing.go","internal/tree/entity.go","internal/tree/defaults.go","internal/crypto/bcrypt/bcrypt.go"],
 [("SetEntitySecret","internal/tree/hooks"),("ValidateEntitySecret","internal/tree/hooks")])
p("C09","Locked entities cannot authenticate; nothing else toggles the lock",
 "While an entity is locked every authentication attempt for it fails, even with the right secret. Locking sets and unlocking clears the lock of exactly the named entity, and apart from lock, unlock, bootstrap (which unlocks) and destruction no operation changes an existing entity's lock state.",
 H,"every stored state, request and operation",
 "Tests lock one entity and try one operation; that no other of the ~20 mutating operations touches the lock for any input cannot be sampled.",
 ["internal/tree/entity.go","internal/tree/hooks/entity-locks.go","internal/tree/hooks/validate-entity-unlocked.go","internal/tree/hooks/merge-entity-meta.go","internal/tree/defaults.go"],
 [("EntityLockManager","internal/tree/hooks/entity-locks.go"),("ValidateEntityUnlocked","internal/tree/hooks"),("VALIDATE-IDENTITY chain","internal/tree/defaults.go")])
p("C10","Metadata updates never touch protected fields",
 "A typed-metadata update of an entity changes none of its ID, number, secret, lock, capabilities, direct groups, public keys, untyped metadata or key/value data; a metadata update of a group changes none of its name, number, capabilities, expansion rules, untyped metadata or key/value data. Fields the update supplies among the remaining ones take the supplied value and fields it leaves out keep theirs.",
 I,"every stored record and every update message, including ones that set protected fields",
 "Tests send updates with one or two protected fields set; the full message space and field combinations are not reachable by examples.",
 ["internal/tree/hooks/merge-entity-meta.go","internal/tree/hooks/merge-group-meta.go","internal/tree/entity.go","internal/tree/group.go"],
 [("MergeEntityMeta","internal/tree/hooks"),("MergeGroupMeta","internal/tree/hooks")])
p("C11","Each operation changes only the record it names, in the addressed part",
 "Every administrative operation on an entity or group modifies at most the one stored record it names, under that record's own ID or name, and within it only the field group the operation is about; if it reports an error before storing, nothing is changed. Read operations change nothing.",
 F,"every operation, argument, stored state and storage fault verdict",
 "Unit tests inspect the field they set, not the untouched rest of every record, and rarely inject storage errors.",
 ["internal/tree/entity.go","internal/tree/group.go","internal/tree/membership.go","internal/tree/defaults.go","internal/tree/entity-chains.go","internal/tree/group-chains.go","internal/tree/hooks"],
 [("RunEntityChain/RunGroupChain","internal/tree"),("load/save hooks","internal/tree/hooks")])
p("C12","Granting and dropping capabilities is exact",
 "Granting a capability to an entity or group makes that capability held and dropping it makes it not held, in both cases leaving every other capability of that record exactly as it was; unknown or missing capability arguments are refused and change nothing.",
 I,"every capability, every existing capability list including duplicates",
 "Tests add or drop one capability on short lists.",
 ["internal/tree/hooks/helpers.go","internal/tree/hooks/entity-capabilities.go","internal/tree/hooks/group-capabilities.go","internal/tree/entity.go","internal/tree/group.go"],
 [("addCapability/delCapability","internal/tree/hooks/helpers.go")])
p("C13","Direct group membership edits are exact",
 "Adding an entity to a group makes that group one of its direct groups and removing it makes that group not one of them, matching the whole name only; every other direct group is preserved and each group is listed at most once.",
 I,"every existing group list and group name, including names that are substrings of others",
 "Tests use a couple of group names.",
 ["internal/tree/membership.go","internal/tree/hooks/direct-groups.go","internal/tree/util/util.go"],
 [("PatchStringSlice","internal/tree/util/util.go")])
p("C14","Structured key/value data is exact: add, get, replace, delete",
 "On entities and groups, adding a key fails if the key exists and otherwise stores exactly the given values under it; replacing and deleting fail if the key does not exist and otherwise affect only that key; getting returns exactly the stored values of the requested keys ('*' for all) or a no-such-key error. All other keys and their values are preserved by every one of these operations.",
 I,"every stored key/value list, key and value list",
 "Tests use one or two keys.",
 ["internal/tree/hooks/entity-kv.go","internal/tree/hooks/group-kv.go","internal/tree/entity.go","internal/tree/group.go"],
 [("EntityKV/GroupKV hooks","internal/tree/hooks")])
p("C15","Untyped metadata edits are exact",
 "Upserting a key in untyped metadata leaves exactly one entry with that key, holding the new value, an exact clear removes all entries with exactly that key, a fuzzy clear removes exactly the entries whose key matches once {n} indices are disregarded, and all other entries are preserved; a read returns exactly the matching entries ('*' for all) and changes nothing.",
 I,"every stored metadata list, key and value",
 "Tests use a few literal keys.",
 ["internal/tree/util/util.go","internal/tree/hooks/untyped-entity-meta.go","internal/tree/hooks/untyped-group-meta.go","internal/tree/entity.go","internal/tree/group.go"],
 [("PatchKeyValueSlice","internal/tree/util/util.go")])
p("C16","Group expansion rules stay well-formed, acyclic and are edited exactly",
 "A group rule is accepted only if the target group exists, the rule does not make a group (directly or through other groups, including itself) include or exclude itself, and the group has no rule for that target yet; dropping removes exactly the rules naming the target. Any other rule of the group is preserved and no other group's rules change.",
 H,"every stored rule graph, group, target and action",
 "Tests build small fixed graphs; cycles of any length and names that contain each other are not sampled.",
 ["internal/tree/group.go","internal/tree/hooks/check-expansion-cycle.go","internal/tree/hooks/check-expansion-targets.go","internal/tree/hooks/check-immediate-expansions.go","internal/tree/hooks/patch-group-expansions.go"],
 [("CheckExpansionCycles","internal/tree/hooks"),("CheckImmediateExpansions","internal/tree/hooks"),("CheckExpansionTargets","internal/tree/hooks"),("PatchGroupExpansions","internal/tree/hooks")])
p("C17","Creating never overwrites an existing record",
 "Creating an entity or group whose ID or name is already stored fails and leaves the stored record unchanged, also when the storage layer fails while checking for existence.",
 F,"every stored state, request and storage fault",
 "Tests try a duplicate once on a healthy store; a storage error during the existence check is never injected.",
 ["internal/tree/hooks/fail-on-existing-entity.go","internal/tree/hooks/fail-on-existing-group.go","internal/tree/defaults.go"],
 [("FailOnExistingEntity/Group","internal/tree/hooks")])
p("C18","Automatically allocated numbers are fresh and positive",
 "A number the server allocates for a new entity or group is at least 1 and larger than every number of that kind already stored, and a failure to read the stored records makes allocation fail rather than return a number in use; with an explicit number the record gets exactly that number.",
 F,"every stored set of numbers and every storage fault",
 "Tests allocate with two or three records.",
 ["internal/db/db.go","internal/tree/hooks/set-entity-number.go","internal/tree/hooks/set-group-number.go","internal/tree/hooks/create-entity-if-missing.go"],
 [("NextEntityNumber/NextGroupNumber","internal/db/db.go")])
p("C19","Bootstrap works at most once and never after being disabled",
 "After bootstrap has been run or disabled, further bootstrap calls change no stored record; a bootstrap that runs affects only the named entity, which ends unlocked with GLOBAL_ROOT and the given secret (hashed), or reports failure and stores nothing.",
 H,"every call sequence, stored state and request",
 "Tests call bootstrap once or twice.",
 ["internal/tree/entity.go","internal/tree/hooks/create-entity-if-missing.go","internal/tree/defaults.go"],
 [("bootstrapDone","internal/tree/entity.go")])
p("C20","Names map one-to-one onto storage keys; entities and groups never alias",
 "Two different entity IDs or group names never address the same stored record and no entity ID addresses a group record or vice versa; names that cannot be mapped faithfully (such as empty names or names containing path separators or dot segments) are refused without touching storage.",
 I,"every pair of names",
 "Tests use plain names only.",
 ["internal/db/db.go"],[("LoadEntity/SaveEntity/DeleteEntity and group counterparts","internal/db/db.go")])
p("C21","What is stored is what is loaded; events report what changed",
 "Saving a record and then loading it under its ID or name yields an equal record, deleting it makes loading report it unknown, and no other record is affected; listing returns exactly the stored IDs or names. Storage errors are reported as errors and never as success or as an empty record, and a change event names exactly the record changed and the kind of change.",
 F,"every record content, key, prior state and storage fault",
 "Tests round-trip a few records on a mock or in-memory store.",
 ["internal/db/db.go","internal/db/callback.go","internal/db/memory/memory.go","internal/db/filesystem/filesystem.go","internal/db/bitcask/bitcask.go"],
 [("DB over KVStore","internal/db/db.go"),("KVStore implementations","internal/db/*")])
p("C22","Effective membership equals the rules' meaning, independent of update order",
 "The entities the server reports as members of a group, and the groups it reports for an entity, are exactly those given by direct membership extended and restricted by the include and exclude rules of the groups as currently stored, applied transitively. This holds after any sequence of entity and group changes, independent of the order in which they arrived.",
 H,"every sequence of entity and group create, update and destroy events",
 "Tests apply one short fixed sequence of updates.",
 ["internal/mresolver/memberships.go","internal/mresolver/type.go","internal/tree/group.go","internal/tree/entity.go","internal/tree/membership.go"],
 [("SyncGroup/resolveChanges/Resolve","internal/mresolver/memberships.go")])
p("C23","Membership resolution terminates",
 "For every acyclic rule graph, and whatever rules existed earlier, processing a group change terminates without unbounded recursion.",
 H,"every history of acyclic rule graphs",
 "Tests use one graph history; stale edges from earlier rules only matter in longer histories.",
 ["internal/mresolver/memberships.go"],[("resolveChanges/Resolve","internal/mresolver/memberships.go")])
p("C24","Shared mutable maps are accessed only under their lock",
 "The membership resolver's maps, the in-memory store's map and the in-memory token cache's map are never read without holding their lock (shared or exclusive) nor written without holding it exclusively, and every lock taken is released on every path.",
 ["schedules","inputs"],"every interleaving of calls from concurrent requests, every input",
 "Tests are single-threaded; races depend on the schedule.",
 ["internal/mresolver/memberships.go","internal/db/memory/memory.go","pkg/netauth/cache/memory/memory.go"],
 [("uMutex/gMutex","internal/mresolver"),("KV lock","internal/db/memory")])
p("C25","The search index follows the store",
 "On every create or update event the search index receives the record currently stored for exactly the changed entity or group, on every destroy event that record is removed from the index of its kind, and a search returns only records that load from the store; a record that fails to load is reported as an error.",
 F,"every event sequence and storage fault",
 "Tests index two or three records.",
 ["internal/db/search.go","internal/db/db.go"],[("IndexCallback","internal/db/search.go")])
p("C26","Filesystem storage stays inside its base directory",
 "Whatever key it is given, the filesystem store reads, writes and deletes only files inside its own base directory.",
 I,"every key string","Tests use plain keys only.",
 ["internal/db/filesystem/filesystem.go"],[("cleanPath","internal/db/filesystem/filesystem.go")])
p("C27","Health is reported OK exactly when every check is OK",
 "The overall system status is OK if and only if every registered subsystem reports OK; every subsystem's status is included in the report, and when the system is not OK the report names a subsystem that is failing.",
 I,"every set of registered checks and verdicts","Tests register one or two checks.",
 ["internal/health/health.go"],[("Check/Proto","internal/health/health.go")])
p("C28","RPC results never misreport the outcome",
 "An RPC that returns a nil error has performed the requested operation successfully on the named record and returns the data that operation produced, and whenever the underlying operation failed the RPC returns a non-nil error; unknown entities and groups are reported as not existing where the API documents it, and duplicate creations as already existing.",
 F,"every request and every error of the underlying operation",
 "Tests inject one failure per handler.",
 ["internal/rpc2/entity.go","internal/rpc2/group.go","internal/rpc2/auth.go","internal/rpc2/system.go","internal/rpc2/errors.go"],
 [("error mapping in handlers","internal/rpc2")])
p("C29","Database copy copies every record or reports failure",
 "The database copy tool either writes every entity and every group of the source, unchanged, to the destination, or terminates with an error.",
 F,"every source content and storage fault","There is no test of the copy tool.",
 ["cmd/nsutil/db_copy.go"],[("dbCopyCmdRun","cmd/nsutil/db_copy.go")])
p("C30","A failing hook aborts its operation before anything is stored",
 "When any step of an administrative operation, including one supplied by a plugin, reports an error, no later step runs, nothing is stored by that operation, and the error reaches the caller; plugin steps run for the action they were registered for, on the records of that operation.",
 F,"every chain, position and error","Tests run short artificial chains.",
 ["internal/tree/entity-chains.go","internal/tree/group-chains.go","internal/plugin/tree/manager/hook.go","internal/plugin/tree/common/rpc.go","internal/plugin/tree/consumer/main.go"],
 [("RunEntityChain/RunGroupChain","internal/tree"),("EntityHook/GroupHook Run","internal/plugin/tree/manager/hook.go")])
p("C31","The client token cache returns only what was stored for that owner",
 "Reading a token from the client's in-memory token cache returns exactly the token most recently stored for that owner, or an error if none is stored or it was deleted; operations on one owner never affect another.",
 H,"every sequence of operations and owners","Tests use one or two owners.",
 ["pkg/netauth/cache/memory/memory.go"],[("InMemoryTokenCache","pkg/netauth/cache/memory/memory.go")])
p("C32","Client mutations are sent to the writable server",
 "Every client-library call that mutates server state makes the connection writable first and sends nothing if that fails, and sends the request with the caller's parameters unaltered; errors from the server are returned to the caller.",
 F,"every mutating client call, argument and connection failure","The client library has no tests against a read-only replica.",
 ["pkg/netauth/entity.go","pkg/netauth/group.go","pkg/netauth/auth.go","pkg/netauth/system.go","pkg/netauth/netauth.go","pkg/netauth/util.go"],
 [("makeWritable","pkg/netauth/util.go")])
p("C33","No request can crash the server",
 "For every well-formed protocol message, including ones with any optional field or sub-message absent, and every stored state, no RPC handler or administrative operation dereferences a nil pointer, indexes out of range or fails a type assertion.",
 I,"every request message and stored record, with any field absent","Tests always send fully populated messages.",
 ["internal/rpc2","internal/tree","internal/tree/hooks","internal/tree/util/util.go","internal/db/db.go"],
 [("generated nil-safe getters","internal/rpc2"),("ensure-entity-meta","internal/tree/hooks/ensure-entity-meta.go")])
p("C34","Public key edits are exact",
 "Adding a public key makes it one of the entity's keys and dropping one removes it, where the key type is compared case-insensitively; all other keys are preserved, no key is listed twice, and listing returns exactly the stored keys.",
 I,"every stored key list and key, including keys that contain one another","Tests use one key.",
 ["internal/tree/entity.go","internal/tree/hooks/entity-keys.go","internal/tree/util/util.go"],[("ManageEntityKeys","internal/tree/hooks/entity-keys.go")])
p("C35","TLS is used unless explicitly disabled",
 "The server serves without TLS only if the operator set the insecure option, and exits instead of serving when the certificate cannot be loaded; the client connects without TLS only if configured insecure.",
 ["configurations","fault_sequences"],"every configuration and certificate failure","Not tested at all.",
 ["cmd/netauthd/main.go","pkg/netauth/util.go"],[("newGRPCServer","cmd/netauthd/main.go"),("connect","pkg/netauth/util.go")])
p("C36","The file based token cache keeps owners apart and tokens private",
 "For owner names without a path separator, a token read from the client's file based cache is exactly the one last stored for that owner, a missing one is reported as missing, and storing or deleting one owner's token leaves every other owner's alone. A token file is created readable and writable by its user only.",
 I,"every owner name and token, including names that share a prefix or contain dots","Tests use one owner and one token, and never look at the file's mode.",
 ["pkg/netauth/cache/fs/fs.go"],[("PutToken","pkg/netauth/cache/fs/fs.go"),("GetToken","pkg/netauth/cache/fs/fs.go"),("DelToken","pkg/netauth/cache/fs/fs.go")])
p("C37","The token service uses the key pair on disk and never replaces it",
 "After loading succeeds, the public key is the one in the key file, which was writable by its owner only, and the private key is absent or the one in its file; loading changes no existing pair. Keys are generated only when the public key file doesn't exist and generation is enabled; then both halves are stored and belong together, and the private key file is created readable by its owner only.",
 ["inputs","configurations","fault_sequences"],"every content, mode and absence of the key files, every configuration and every failure","Tests use a few prepared directories.",
 ["internal/token/jwt/rsa.go"],[("GetKeys","internal/token/jwt/rsa.go"),("generateKeys","internal/token/jwt/rsa.go"),("NewRSA","internal/token/jwt/rsa.go")])
schema=json.load(open("/root/.vp/PROPERTIES.schema.json")) if len(sys.argv)<2 else None
with open("/verif/properties.jsonl","w") as f:
    for x in P:
        if len(x["title"])>80: print("LONG",x["title"]); continue
        if schema: jsonschema.validate(x,schema)
        assert len(x['title'])<=80,x['title']
        assert len(x["statement"].split(". "))<=3,x["id"]
        f.write(json.dumps(x)+"\n")
print(len(P))
