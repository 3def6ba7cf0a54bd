#!/usr/bin/env python3
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = [
 ("C17", "00d394e", "creating an entity or group proceeded (and could overwrite the stored record) when the storage layer failed with an error other than unknown-entity/unknown-group during the existence check"),
 ("C10", "79e8e2b", "a group metadata update with capabilities, expansions, untyped metadata or key/value data in the request changed those protected fields"),
 ("C10", "8e00546", "an entity metadata update with Locked or KV in the request changed the lock and the key/value data; a request without metadata crashed"),
 ("C09", "8e00546", "an entity metadata update with Locked set changed the entity's lock"),
 ("C33", "8e00546", "an entity metadata update without metadata dereferenced a nil pointer"),
 ("C16", "06e4f2e", "group rule targets were matched by substring: rules for other groups were refused or dropped"),
 ("C16", "e9b1bbc", "a group could be made to include or exclude itself"),
 ("C23", "e9b1bbc", "a group that includes itself makes the membership resolver recurse without bound"),
 ("C34", "9c348c6", "dropping a public key dropped every key containing it; adding one contained in another key was ignored"),
 ("C01", "03397d8", "group changes were let through without a valid token when the empty entity ID was in the managing group, and a delegated manager was never recognised"),
 ("C02", "03397d8", "on a read-only server the management-by-membership exception skipped the read-only refusal, so groups could be changed"),
 ("C03", "03397d8", "a delegated manager of a group was refused, since the requestor's identity was never put into the context before the exception was tried"),
 ("C33", "b2e2a19", "a token request without an entity ID dereferenced a nil pointer"),
 ("C33", "3738957", "a group update without a group dereferenced a nil pointer"),
 ("C28", "1bffd42", "listing the members of a group that does not exist succeeded with an empty list"),
 ("C04", "456d1ec", "a token issued while its entity could not be loaded carried the capabilities of the groups of the entity with the empty ID"),
 ("C06", "bc61626", "when signing failed, token generation returned an empty token and no error"),
 ("C20", "140d94f", "names such as 'a/../b', '.' or the empty name addressed another name's record (or none) on the path-based stores"),
 ("C18", "d2bd06a", "automatic numbers wrapped around to negative values after the largest int32 number was in use"),
 ("C21", "0cde73c", "the bitcask store returned no error when a read failed for another reason than a missing key, and never reported delete errors"),
 ("C26", "2647509", "keys such as '.' or '..' addressed the filesystem store's base directory itself, so deleting such a key could remove it"),
 ("C23", "8d2f678", "syncing a group kept it as a dependent of groups its earlier rules named: after 'A includes B' is dropped and 'B includes A' added, re-resolution recursed without bound"),
 ("C24", "2f44ac6", "MembersOfGroup walked the entity map without its lock, resolveChanges ranged over a group's dependents outside the lock, and concurrent group changes could overwrite each other's resolutions"),
 ("C22", "ebeb88a", "a group with a rule about a group not known yet was never resolved (start-up order), and the dependents of a removed group kept its last resolution"),
 ("C33", "04c24a7", "an unauthenticated status request crashed the server (nil pointer) when a plugin had not started"),
 ("C27", "04c24a7", "the health check of a plugin that had not started crashed instead of reporting it as failed"),
 ("C29", "e0955b4", "the database copy tool exited 0 although records could not be copied"),
]
K = [
 ("C21", "internal/db/filesystem.Filesystem.Keys", "filesystem.Keys: when a directory of the store cannot be read (for example kv/entities with mode 000), listing returns the readable rest without an error"),
 ("C18", "internal/db/filesystem.Filesystem.Keys", "filesystem.Keys: when a directory of the store cannot be read, listing returns the readable rest without an error, so an automatic number can be allocated that an unreadable record already has"),
]
out = [{"property": p, "contract": "", "what": w, "fixed": "fixed: property=%s %s %s" % (p, c, w)} for p, c, w in F]
out += [{"property": p, "contract": c, "what": w} for p, c, w in K]
json.dump(out, open(os.path.join(root, "known-findings.json"), "w"), indent=1)
open(os.path.join(root, "known-findings.json"), "a").write("\n")
