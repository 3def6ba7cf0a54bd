From 00d394e1e0e2066a8a362ec55e26209d39d52c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:42 +0000
Subject: [PATCH 01/21] fix: do not create over a record whose existence could
 not be checked

A load that fails for any reason other than the record being unknown
was treated as if the record did not exist, so a create during a storage
failure could overwrite an existing entity or group.
---
 internal/tree/hooks/fail-on-existing-entity.go |  9 +++++++--
 internal/tree/hooks/fail-on-existing-group.go  | 10 ++++++++--
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/internal/tree/hooks/fail-on-existing-entity.go b/internal/tree/hooks/fail-on-existing-entity.go
index 45a57c1..b8a3cf8 100644
--- a/internal/tree/hooks/fail-on-existing-entity.go
+++ b/internal/tree/hooks/fail-on-existing-entity.go
@@ -1,6 +1,7 @@
 package hooks
 
 import (
+	"github.com/netauth/netauth/internal/db"
 	"github.com/netauth/netauth/internal/startup"
 	"github.com/netauth/netauth/internal/tree"
 
@@ -20,10 +21,14 @@ type FailOnExistingEntity struct {
 // from the storage backend will be returned to the caller).
 func (l *FailOnExistingEntity) Run(e, de *pb.Entity) error {
 	_, err := l.LoadEntity(de.GetID())
-	if err == nil {
+	switch err {
+	case nil:
 		return tree.ErrDuplicateEntityID
+	case db.ErrUnknownEntity:
+		return nil
+	default:
+		return err
 	}
-	return nil
 }
 
 func init() {
diff --git a/internal/tree/hooks/fail-on-existing-group.go b/internal/tree/hooks/fail-on-existing-group.go
index 94e8563..714fa55 100644
--- a/internal/tree/hooks/fail-on-existing-group.go
+++ b/internal/tree/hooks/fail-on-existing-group.go
@@ -1,6 +1,7 @@
 package hooks
 
 import (
+	"github.com/netauth/netauth/internal/db"
 	"github.com/netauth/netauth/internal/startup"
 	"github.com/netauth/netauth/internal/tree"
 
@@ -18,10 +19,15 @@ type FailOnExistingGroup struct {
 // by dg.  If the group loads successfully then an error is returned,
 // in other cases nil is returned.
 func (f *FailOnExistingGroup) Run(g, dg *pb.Group) error {
-	if _, err := f.LoadGroup(dg.GetName()); err == nil {
+	_, err := f.LoadGroup(dg.GetName())
+	switch err {
+	case nil:
 		return tree.ErrDuplicateGroupName
+	case db.ErrUnknownGroup:
+		return nil
+	default:
+		return err
 	}
-	return nil
 }
 
 func init() {
-- 
2.43.0


From 79e8e2bcbc09c896890cd79de63c06e750aef064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:42 +0000
Subject: [PATCH 02/21] fix: group metadata updates must not touch
 capabilities, rules or other data

---
 internal/tree/hooks/merge-group-meta.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/tree/hooks/merge-group-meta.go b/internal/tree/hooks/merge-group-meta.go
index 6c8ac9f..78ff841 100644
--- a/internal/tree/hooks/merge-group-meta.go
+++ b/internal/tree/hooks/merge-group-meta.go
@@ -23,6 +23,10 @@ func (*MergeGroupMeta) Run(g, dg *pb.Group) error {
 	// metadata this way, so we null those out here.
 	dg.Name = nil
 	dg.Number = nil
+	dg.Capabilities = nil
+	dg.Expansions = nil
+	dg.UntypedMeta = nil
+	dg.KV = nil
 
 	proto.Merge(g, dg)
 	return nil
-- 
2.43.0


From 8e00546de118ef8b6ac7de410306ec5e76cfbd2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:42 +0000
Subject: [PATCH 03/21] fix: entity metadata updates must not change the lock
 or key/value data

An update without any metadata is also no longer a nil dereference.
---
 internal/tree/hooks/merge-entity-meta.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/tree/hooks/merge-entity-meta.go b/internal/tree/hooks/merge-entity-meta.go
index e5024f1..b231764 100644
--- a/internal/tree/hooks/merge-entity-meta.go
+++ b/internal/tree/hooks/merge-entity-meta.go
@@ -21,10 +21,15 @@ type MergeEntityMeta struct {
 func (*MergeEntityMeta) Run(e, de *pb.Entity) error {
 	// There's a few fields that can't be set by merging the
 	// metadata this way, so we null those out here.
+	if de.Meta == nil {
+		return nil
+	}
+	de.Meta.Locked = nil
 	de.Meta.Capabilities = nil
 	de.Meta.Groups = nil
 	de.Meta.Keys = nil
 	de.Meta.UntypedMeta = nil
+	de.Meta.KV = nil
 
 	proto.Merge(e, de)
 	return nil
-- 
2.43.0


From 06e4f2e9ba03b24791045923607906dde35e5c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:36 +0000
Subject: [PATCH 04/21] fix: match group rule targets by their whole name

Dropping the rule for one group also removed the rules for every group
whose name contains that name, and a rule was refused when an existing
rule merely contained the name of its target.
---
 internal/tree/hooks/check-immediate-expansions.go |  2 +-
 internal/tree/hooks/patch-group-expansions.go     | 12 ++++++------
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/internal/tree/hooks/check-immediate-expansions.go b/internal/tree/hooks/check-immediate-expansions.go
index 82060a6..fbf6375 100644
--- a/internal/tree/hooks/check-immediate-expansions.go
+++ b/internal/tree/hooks/check-immediate-expansions.go
@@ -29,7 +29,7 @@ func (cie *CheckImmediateExpansions) Run(g, dg *pb.Group) error {
 			continue
 		}
 		for k := range existing {
-			if strings.Contains(existing[k], parts[1]) {
+			if target := strings.SplitN(existing[k], ":", 2); target[len(target)-1] == parts[1] {
 				return tree.ErrExistingExpansion
 			}
 		}
diff --git a/internal/tree/hooks/patch-group-expansions.go b/internal/tree/hooks/patch-group-expansions.go
index e7611b5..a44f443 100644
--- a/internal/tree/hooks/patch-group-expansions.go
+++ b/internal/tree/hooks/patch-group-expansions.go
@@ -19,7 +19,7 @@ type PatchGroupExpansions struct {
 }
 
 // Run iterates through the expansions in dg and applies them to g.
-// DROP expansions are processed with fuzzy group name matching.
+// DROP expansions remove every rule that has the named target.
 func (*PatchGroupExpansions) Run(g, dg *pb.Group) error {
 	exps := dg.GetExpansions()
 	for i := range exps {
@@ -27,11 +27,11 @@ func (*PatchGroupExpansions) Run(g, dg *pb.Group) error {
 		if parts[0] == "INCLUDE" || parts[0] == "EXCLUDE" {
 			g.Expansions = util.PatchStringSlice(g.Expansions, exps[i], true, true)
 		} else if parts[0] == "DROP" {
-			// Patch out with fuzzy matching, this will
-			// innevitably come back to bite someone, but
-			// until then its much faster than doing
-			// strict checking on the group name.
-			g.Expansions = util.PatchStringSlice(g.Expansions, parts[1], false, false)
+			// The rule to drop is identified only by its
+			// target, so both kinds are patched out, but
+			// always matching the whole group name.
+			g.Expansions = util.PatchStringSlice(g.Expansions, "INCLUDE:"+parts[1], false, true)
+			g.Expansions = util.PatchStringSlice(g.Expansions, "EXCLUDE:"+parts[1], false, true)
 		}
 	}
 	sort.Strings(g.Expansions)
-- 
2.43.0


From e9b1bbc0583b6ba2d59c243389fd22ae46f81b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:36 +0000
Subject: [PATCH 05/21] fix: refuse group rules that target the group itself

---
 internal/tree/hooks/check-expansion-cycle.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tree/hooks/check-expansion-cycle.go b/internal/tree/hooks/check-expansion-cycle.go
index f19d07f..f6e643c 100644
--- a/internal/tree/hooks/check-expansion-cycle.go
+++ b/internal/tree/hooks/check-expansion-cycle.go
@@ -34,7 +34,7 @@ func (cec *CheckExpansionCycles) Run(g, dg *pb.Group) error {
 		if err != nil {
 			return err
 		}
-		if cec.checkGroupCycles(child, g.GetName()) {
+		if parts[1] == g.GetName() || cec.checkGroupCycles(child, g.GetName()) {
 			return tree.ErrExistingExpansion
 		}
 	}
-- 
2.43.0


From 9c348c65908e368261cc43e431ab9cdccf9c0bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:36 +0000
Subject: [PATCH 06/21] fix: match public keys exactly

Adding a key that is part of a key already present silently did nothing,
and dropping a key removed every key that contains it.
---
 internal/tree/hooks/entity-keys.go | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/internal/tree/hooks/entity-keys.go b/internal/tree/hooks/entity-keys.go
index 7f70d71..2ccf816 100644
--- a/internal/tree/hooks/entity-keys.go
+++ b/internal/tree/hooks/entity-keys.go
@@ -1,6 +1,8 @@
 package hooks
 
 import (
+	"strings"
+
 	"github.com/netauth/netauth/internal/startup"
 	"github.com/netauth/netauth/internal/tree"
 	"github.com/netauth/netauth/internal/tree/util"
@@ -15,14 +17,32 @@ type ManageEntityKeys struct {
 }
 
 // Run iterates on all keys in the request and adds or removes them
-// from the entity's keystore.
+// from the entity's keystore.  Keys are matched exactly, removing an
+// empty key removes every key of its type.
 func (mek *ManageEntityKeys) Run(e, de *pb.Entity) error {
 	for _, k := range de.Meta.Keys {
-		e.Meta.Keys = util.PatchStringSlice(e.Meta.Keys, k, mek.mode, false)
+		parts := strings.SplitN(k, ":", 2)
+		if !mek.mode && len(parts) == 2 && parts[1] == "" {
+			e.Meta.Keys = dropKeyType(e.Meta.Keys, k)
+			continue
+		}
+		e.Meta.Keys = util.PatchStringSlice(e.Meta.Keys, k, mek.mode, true)
 	}
 	return nil
 }
 
+// dropKeyType removes all keys of one type.  The type is given as it
+// appears in front of the keys, including the separator.
+func dropKeyType(keys []string, prefix string) []string {
+	var out []string
+	for _, k := range keys {
+		if !strings.HasPrefix(k, prefix) {
+			out = append(out, k)
+		}
+	}
+	return out
+}
+
 func init() {
 	startup.RegisterCallback(entityKeysCB)
 }
-- 
2.43.0


From 03397d87030e43f090e3b002ace924cd37ea8bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:13 +0000
Subject: [PATCH 07/21] fix: let delegated managers manage their groups, and
 only with a valid token on a writable server

---
 internal/rpc2/group.go | 23 +++++++++++++----------
 internal/rpc2/util.go  | 19 +++++++++++++++++++
 2 files changed, 32 insertions(+), 10 deletions(-)

diff --git a/internal/rpc2/group.go b/internal/rpc2/group.go
index bb90957..ba2e641 100644
--- a/internal/rpc2/group.go
+++ b/internal/rpc2/group.go
@@ -55,8 +55,7 @@ func (s *Server) GroupCreate(ctx context.Context, r *pb.GroupRequest) (*pb.Empty
 // untyped metadata.
 func (s *Server) GroupUpdate(ctx context.Context, r *pb.GroupRequest) (*pb.Empty, error) {
 	g := r.GetGroup()
-	err := s.mutablePrequisitesMet(ctx, types.Capability_MODIFY_GROUP_META)
-	if err != nil && !s.manageByMembership(getTokenClaims(ctx).EntityID, g) {
+	if err := s.groupMutablePrequisitesMet(ctx, types.Capability_MODIFY_GROUP_META, g); err != nil {
 		return &pb.Empty{}, err
 	}
 
@@ -134,9 +133,8 @@ func (s *Server) GroupUM(ctx context.Context, r *pb.KVRequest) (*pb.ListOfString
 	}
 
 	if r.GetAction() != pb.Action_READ {
-		err := s.mutablePrequisitesMet(ctx, types.Capability_MODIFY_GROUP_META)
 		g := types.Group{Name: proto.String(r.GetTarget())}
-		if err != nil && !s.manageByMembership(getTokenClaims(ctx).EntityID, &g) {
+		if err := s.groupMutablePrequisitesMet(ctx, types.Capability_MODIFY_GROUP_META, &g); err != nil {
 			return &pb.ListOfStrings{}, err
 		}
 	}
@@ -330,8 +328,7 @@ func (s *Server) GroupKVReplace(ctx context.Context, r *pb.KV2Request) (*pb.Empt
 func (s *Server) GroupUpdateRules(ctx context.Context, r *pb.GroupRulesRequest) (*pb.Empty, error) {
 	g := r.GetGroup()
 
-	err := s.mutablePrequisitesMet(ctx, types.Capability_MODIFY_GROUP_META)
-	if err != nil && !s.manageByMembership(getTokenClaims(ctx).EntityID, g) {
+	if err := s.groupMutablePrequisitesMet(ctx, types.Capability_MODIFY_GROUP_META, g); err != nil {
 		return &pb.Empty{}, err
 	}
 
@@ -370,15 +367,18 @@ func (s *Server) GroupAddMember(ctx context.Context, r *pb.EntityRequest) (*pb.E
 	e := r.GetEntity()
 
 	preErr := s.mutablePrequisitesMet(ctx, types.Capability_MODIFY_GROUP_MEMBERS)
+	if preErr != nil && preErr != ErrRequestorUnqualified {
+		return &pb.Empty{}, preErr
+	}
 	for _, g := range e.GetMeta().GetGroups() {
 		grp := types.Group{Name: proto.String(g)}
-		if preErr != nil && !s.manageByMembership(getTokenClaims(ctx).EntityID, &grp) {
+		if err := s.groupMutablePrequisitesMet(ctx, types.Capability_MODIFY_GROUP_MEMBERS, &grp); err != nil {
 			s.log.Warn("Insufficient authority to add entity to group",
 				"entity", e.GetID(),
 				"group", g,
 				"authority", getTokenClaims(ctx).EntityID,
 			)
-			return &pb.Empty{}, preErr
+			return &pb.Empty{}, err
 		}
 		if err := s.AddEntityToGroup(e.GetID(), g); err != nil {
 			s.log.Warn("Error adding entity to group",
@@ -400,15 +400,18 @@ func (s *Server) GroupDelMember(ctx context.Context, r *pb.EntityRequest) (*pb.E
 	e := r.GetEntity()
 
 	preErr := s.mutablePrequisitesMet(ctx, types.Capability_MODIFY_GROUP_MEMBERS)
+	if preErr != nil && preErr != ErrRequestorUnqualified {
+		return &pb.Empty{}, preErr
+	}
 	for _, g := range e.GetMeta().GetGroups() {
 		grp := types.Group{Name: proto.String(g)}
-		if preErr != nil && !s.manageByMembership(getTokenClaims(ctx).EntityID, &grp) {
+		if err := s.groupMutablePrequisitesMet(ctx, types.Capability_MODIFY_GROUP_MEMBERS, &grp); err != nil {
 			s.log.Warn("Insufficient authority to add entity to group",
 				"entity", e.GetID(),
 				"group", g,
 				"authority", getTokenClaims(ctx).EntityID,
 			)
-			return &pb.Empty{}, preErr
+			return &pb.Empty{}, err
 		}
 		if err := s.RemoveEntityFromGroup(e.GetID(), g); err != nil {
 			s.log.Warn("Error adding entity to group",
diff --git a/internal/rpc2/util.go b/internal/rpc2/util.go
index f1517d9..3536c03 100644
--- a/internal/rpc2/util.go
+++ b/internal/rpc2/util.go
@@ -213,3 +213,22 @@ func (s *Server) mutablePrequisitesMet(ctx context.Context, c types.Capability)
 	}
 	return nil
 }
+
+// groupMutablePrequisitesMet checks the same prerequisites as
+// mutablePrequisitesMet, but a requestor that lacks only the capability
+// is let through if it may manage group g by membership.  No other
+// failure can be made up for by membership.
+func (s *Server) groupMutablePrequisitesMet(ctx context.Context, c types.Capability, g *types.Group) error {
+	err := s.mutablePrequisitesMet(ctx, c)
+	if err != ErrRequestorUnqualified {
+		return err
+	}
+	ctx, tokenErr := s.checkToken(ctx)
+	if tokenErr != nil {
+		return tokenErr
+	}
+	if !s.manageByMembership(getTokenClaims(ctx).EntityID, g) {
+		return err
+	}
+	return nil
+}
-- 
2.43.0


From b2e2a19b4bd3b1d9605a784f967ec8060fcc0270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:52 +0000
Subject: [PATCH 08/21] fix: do not crash on a token request without an entity
 ID

---
 internal/rpc2/auth.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/rpc2/auth.go b/internal/rpc2/auth.go
index b0f8cb4..873677c 100644
--- a/internal/rpc2/auth.go
+++ b/internal/rpc2/auth.go
@@ -37,7 +37,7 @@ func (s *Server) AuthGetToken(ctx context.Context, r *pb.AuthRequest) (*pb.AuthR
 		return &pb.AuthResult{}, err
 	}
 
-	caps := s.getCapabilitiesForEntity(*r.Entity.ID)
+	caps := s.getCapabilitiesForEntity(r.GetEntity().GetID())
 
 	// Generate Token
 	tkn, err := s.Generate(
-- 
2.43.0


From 3738957a0e66ba2abb9af82189f3b57fb30972a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:52 +0000
Subject: [PATCH 09/21] fix: do not crash on a group update without a group

---
 internal/tree/group.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/tree/group.go b/internal/tree/group.go
index 48933b3..589d4a4 100644
--- a/internal/tree/group.go
+++ b/internal/tree/group.go
@@ -52,6 +52,9 @@ func (m *Manager) DestroyGroup(name string) error {
 // information is not mutable and so that information is not merged
 // in.
 func (m *Manager) UpdateGroupMeta(name string, update *pb.Group) error {
+	if update == nil {
+		update = &pb.Group{}
+	}
 	update.Name = &name
 	_, err := m.RunGroupChain("MERGE-METADATA", update)
 	return err
-- 
2.43.0


From 1bffd423e744382d3569111747087cb0c8eb1a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:52 +0000
Subject: [PATCH 10/21] fix: report the members of an unknown group as not
 existing

---
 internal/rpc2/group.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/rpc2/group.go b/internal/rpc2/group.go
index ba2e641..c7aa272 100644
--- a/internal/rpc2/group.go
+++ b/internal/rpc2/group.go
@@ -473,7 +473,13 @@ func (s *Server) GroupDestroy(ctx context.Context, r *pb.GroupRequest) (*pb.Empt
 func (s *Server) GroupMembers(ctx context.Context, r *pb.GroupRequest) (*pb.ListOfEntities, error) {
 	g := r.GetGroup()
 
-	members, err := s.ListMembers(g.GetName())
+	// A group that isn't known has no members, so make sure that the
+	// group exists before resolving its membership.
+	_, err := s.FetchGroup(g.GetName())
+	var members []*types.Entity
+	if err == nil {
+		members, err = s.ListMembers(g.GetName())
+	}
 	switch err {
 	case db.ErrUnknownGroup:
 		s.log.Warn("Group does not exist!",
-- 
2.43.0


From 456d1ecac3d7f0cd04b7290c5e444300d9844fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:22 +0000
Subject: [PATCH 11/21] fix: grant no capabilities to an entity that cannot be
 loaded

---
 internal/rpc2/util.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/internal/rpc2/util.go b/internal/rpc2/util.go
index 3536c03..c818770 100644
--- a/internal/rpc2/util.go
+++ b/internal/rpc2/util.go
@@ -14,14 +14,15 @@ import (
 type claimsContextKey struct{}
 
 func (s *Server) getCapabilitiesForEntity(id string) []types.Capability {
-	// Get the full fledged entity; we can assert no error here
-	// since the entity was just loaded to perform an
-	// authentication check prior to calling this function.
-	// There's a minimal risk that the entity has vanished, but if
-	// that's the case then this will return empty since the
-	// FetchEntity function will return an empty entity, thus no
-	// authorization attack can be performed via this vector.
-	e, _ := s.FetchEntity(id)
+	// Get the full fledged entity.  It was just loaded to perform
+	// an authentication check prior to calling this function, but
+	// it may have vanished or become unreadable since.  No
+	// capabilities are known for it then; in particular those of
+	// the groups of the empty entity are not its own.
+	e, err := s.FetchEntity(id)
+	if err != nil {
+		return []types.Capability{}
+	}
 
 	// First get the capabilities that are provided by the entity
 	// itself.
-- 
2.43.0


From bc616268ce80b5d0d46487de4cccc8b2ca60ff44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:07 +0000
Subject: [PATCH 12/21] fix: report token signing failures instead of returning
 an empty token

---
 internal/token/jwt/rsa.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/internal/token/jwt/rsa.go b/internal/token/jwt/rsa.go
index 193ef19..f1c2ac2 100644
--- a/internal/token/jwt/rsa.go
+++ b/internal/token/jwt/rsa.go
@@ -77,10 +77,13 @@ func (s *RSATokenService) Generate(claims token.Claims, config token.Config) (st
 
 	tkn := jwt.NewWithClaims(jwt.SigningMethodRS512, c)
 
-	// We discard this error as there is no meaningful error that
-	// can be returned from here.  Basically the FPU would need to
-	// fail for this to have a problem...
-	ss, _ := tkn.SignedString(s.privateKey)
+	// Signing can fail, for example if the key is too small for
+	// the digest.  An empty string is not a token.
+	ss, err := tkn.SignedString(s.privateKey)
+	if err != nil {
+		s.log.Error("Error signing token", "error", err)
+		return "", token.ErrInternalError
+	}
 	return ss, nil
 }
 
-- 
2.43.0


From 140d94f915fbe0b91af0a8021268b2816e6a9128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:07 +0000
Subject: [PATCH 13/21] fix: refuse names that don't map one-to-one onto
 storage keys

---
 internal/db/db.go     | 47 +++++++++++++++++++++++++++++++++++++------
 internal/db/errors.go |  4 ++++
 2 files changed, 45 insertions(+), 6 deletions(-)

diff --git a/internal/db/db.go b/internal/db/db.go
index 51053d4..136880b 100644
--- a/internal/db/db.go
+++ b/internal/db/db.go
@@ -5,6 +5,7 @@ package db
 
 import (
 	"path"
+	"strings"
 
 	"github.com/golang/protobuf/proto"
 	"github.com/hashicorp/go-hclog"
@@ -37,6 +38,16 @@ func New(backend string) (*DB, error) {
 	return x, nil
 }
 
+// key maps the name of a record to its key within the given space.
+// Names that would address something outside of that space, or some
+// other record in it, don't have a key.
+func key(space, name string) (string, error) {
+	if name == "" || name == "." || name == ".." || strings.Contains(name, "/") {
+		return "", ErrBadName
+	}
+	return path.Join(space, name), nil
+}
+
 // DiscoverEntityIDs searches the keyspace for all entity IDs.  All
 // returned strings are loadable entities.
 func (db *DB) DiscoverEntityIDs() ([]string, error) {
@@ -45,7 +56,11 @@ func (db *DB) DiscoverEntityIDs() ([]string, error) {
 
 // LoadEntity retrieves a single entity from the kv store.
 func (db *DB) LoadEntity(ID string) (*types.Entity, error) {
-	b, err := db.kv.Get(path.Join("/entities", ID))
+	k, err := key("/entities", ID)
+	if err != nil {
+		return nil, ErrUnknownEntity
+	}
+	b, err := db.kv.Get(k)
 	if err == ErrNoValue {
 		return nil, ErrUnknownEntity
 	}
@@ -64,13 +79,17 @@ func (db *DB) LoadEntity(ID string) (*types.Entity, error) {
 
 // SaveEntity writes an entity to the kv store.
 func (db *DB) SaveEntity(e *types.Entity) error {
+	k, err := key("/entities", e.GetID())
+	if err != nil {
+		return err
+	}
 	b, err := proto.Marshal(e)
 	if err != nil {
 		db.log.Warn("Error marshaling entity", "error", err)
 		return err
 	}
 
-	if err := db.kv.Put(path.Join("/entities", e.GetID()), b); err != nil {
+	if err := db.kv.Put(k, b); err != nil {
 		db.log.Warn("Error storing entity", "error", err)
 		return ErrInternalError
 	}
@@ -79,7 +98,11 @@ func (db *DB) SaveEntity(e *types.Entity) error {
 
 // DeleteEntity tries to delete an entity that already exists.
 func (db *DB) DeleteEntity(ID string) error {
-	err := db.kv.Del(path.Join("/entities", ID))
+	k, err := key("/entities", ID)
+	if err != nil {
+		return ErrUnknownEntity
+	}
+	err = db.kv.Del(k)
 	if err == ErrNoValue {
 		return ErrUnknownEntity
 	}
@@ -94,7 +117,11 @@ func (db *DB) DiscoverGroupNames() ([]string, error) {
 
 // LoadGroup retrieves a single group from the kv store.
 func (db *DB) LoadGroup(ID string) (*types.Group, error) {
-	b, err := db.kv.Get(path.Join("/groups", ID))
+	k, err := key("/groups", ID)
+	if err != nil {
+		return nil, ErrUnknownGroup
+	}
+	b, err := db.kv.Get(k)
 	if err == ErrNoValue {
 		return nil, ErrUnknownGroup
 	}
@@ -113,13 +140,17 @@ func (db *DB) LoadGroup(ID string) (*types.Group, error) {
 
 // SaveGroup writes an group to the kv store.
 func (db *DB) SaveGroup(g *types.Group) error {
+	k, err := key("/groups", g.GetName())
+	if err != nil {
+		return err
+	}
 	b, err := proto.Marshal(g)
 	if err != nil {
 		db.log.Warn("Error marshaling group", "error", err)
 		return err
 	}
 
-	if err := db.kv.Put(path.Join("/groups", g.GetName()), b); err != nil {
+	if err := db.kv.Put(k, b); err != nil {
 		db.log.Warn("Error storing group", "error", err)
 		return err
 	}
@@ -128,7 +159,11 @@ func (db *DB) SaveGroup(g *types.Group) error {
 
 // DeleteGroup tries to delete an group that already exists.
 func (db *DB) DeleteGroup(ID string) error {
-	err := db.kv.Del(path.Join("/groups", ID))
+	k, err := key("/groups", ID)
+	if err != nil {
+		return ErrUnknownGroup
+	}
+	err = db.kv.Del(k)
 	if err == ErrNoValue {
 		return ErrUnknownGroup
 	}
diff --git a/internal/db/errors.go b/internal/db/errors.go
index b4bed2d..39b0022 100644
--- a/internal/db/errors.go
+++ b/internal/db/errors.go
@@ -25,6 +25,10 @@ var (
 	// filled for some reason.
 	ErrBadSearch = errors.New("the provided SearchRequest is invalid")
 
+	// ErrBadName is returned for a request to store a record
+	// under a name that cannot be mapped to a key.
+	ErrBadName = errors.New("the specified name cannot be stored")
+
 	// ErrNoValue is returned when no value exists for a given key.
 	ErrNoValue = errors.New("no value exists")
 )
-- 
2.43.0


From d2bd06a095f89472f88424faec17327af74b2a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:07 +0000
Subject: [PATCH 14/21] fix: don't wrap around when the number space is
 exhausted

---
 internal/db/db.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/internal/db/db.go b/internal/db/db.go
index 136880b..fa2d2fa 100644
--- a/internal/db/db.go
+++ b/internal/db/db.go
@@ -4,6 +4,7 @@
 package db
 
 import (
+	"math"
 	"path"
 	"strings"
 
@@ -203,6 +204,10 @@ func (db *DB) NextEntityNumber() (int32, error) {
 		}
 	}
 
+	if largest == math.MaxInt32 {
+		db.log.Error("No more numbers can be assigned")
+		return 0, ErrInternalError
+	}
 	return largest + 1, nil
 }
 
@@ -225,6 +230,10 @@ func (db *DB) NextGroupNumber() (int32, error) {
 		}
 	}
 
+	if largest == math.MaxInt32 {
+		db.log.Error("No more numbers can be assigned")
+		return 0, ErrInternalError
+	}
 	return largest + 1, nil
 }
 
-- 
2.43.0


From 0cde73c6ae87c7a3a854d5941444e55f243bc708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:07 +0000
Subject: [PATCH 15/21] fix: report bitcask read and delete errors

---
 internal/db/bitcask/bitcask.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/internal/db/bitcask/bitcask.go b/internal/db/bitcask/bitcask.go
index daf0483..77f782c 100644
--- a/internal/db/bitcask/bitcask.go
+++ b/internal/db/bitcask/bitcask.go
@@ -77,19 +77,19 @@ func (bcs *BCStore) Get(k string) ([]byte, error) {
 	switch err {
 	case nil:
 		return v, nil
-	default:
+	case bitcask.ErrKeyNotFound:
 		return nil, db.ErrNoValue
+	default:
+		return nil, err
 	}
 }
 
 // Del removes any existing value at the location specified by the
 // provided key.
 func (bcs *BCStore) Del(k string) error {
-	// I can come up with nothing that causes this delete call to
-	// fail, up to and including nuking the entire data directory.
-	// If you can write a way to check this error and its
-	// associated test, open a PR.
-	bcs.s.Delete([]byte(k))
+	if err := bcs.s.Delete([]byte(k)); err != nil {
+		return err
+	}
 	bcs.fireEventForKey(k, eventDelete)
 	return nil
 }
-- 
2.43.0


From 26475099f21cdb185e7737d6e90a476e9a7cf1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:07 +0000
Subject: [PATCH 16/21] fix: the filesystem store's base directory is not a key

---
 internal/db/filesystem/filesystem.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/db/filesystem/filesystem.go b/internal/db/filesystem/filesystem.go
index c2cb2fe..c1a0a7c 100644
--- a/internal/db/filesystem/filesystem.go
+++ b/internal/db/filesystem/filesystem.go
@@ -192,7 +192,8 @@ func (fs *Filesystem) Capabilities() []db.KVCapability {
 func (fs *Filesystem) cleanPath(p string) (string, error) {
 	p = filepath.Clean(p)
 
-	if strings.HasPrefix(p, "..") {
+	// The base path itself is not inside of the base path.
+	if strings.HasPrefix(p, "..") || p == "." || p == "/" {
 		return "", ErrPathEscape
 	}
 
-- 
2.43.0


From e0955b48281827178ca11f469e09e694b3fdaa52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:07 +0000
Subject: [PATCH 17/21] fix: exit with an error when the database copy is
 incomplete

---
 cmd/nsutil/db_copy.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmd/nsutil/db_copy.go b/cmd/nsutil/db_copy.go
index ffb5ece..57a9d4a 100644
--- a/cmd/nsutil/db_copy.go
+++ b/cmd/nsutil/db_copy.go
@@ -52,6 +52,7 @@ func dbCopyCmdRun(c *cobra.Command, args []string) {
 	sourceKeys, err := source.Keys("/*/*")
 	if err != nil {
 		fmt.Fprintf(os.Stderr, "Error retrieving keys from source: %s\n", err)
+		os.Exit(1)
 	}
 	fmt.Printf("Source initialized, contains %d objects.\n", len(sourceKeys))
 
@@ -101,5 +102,8 @@ func dbCopyCmdRun(c *cobra.Command, args []string) {
 		}
 		count++
 	}
-	fmt.Println("Copy complete; %d objects were copied.  If this number does not match the number of source objects you have encountered copy errors and should review them above!", count)
+	fmt.Printf("Copy complete; %d objects were copied.  If this number does not match the number of source objects you have encountered copy errors and should review them above!\n", count)
+	if count != len(sourceKeys) {
+		os.Exit(1)
+	}
 }
-- 
2.43.0


From 8d2f67847d4324cdcffc7f03f60587c6a2b78332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:30 +0000
Subject: [PATCH 18/21] fix: forget the old rules of a group when it is synced

The affector edges of earlier rules were kept.  Once a group that used
to include another is included by it instead, the edges form a cycle
and resolveChanges never returns.
---
 internal/mresolver/memberships.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/mresolver/memberships.go b/internal/mresolver/memberships.go
index 6ca6517..7d452e8 100644
--- a/internal/mresolver/memberships.go
+++ b/internal/mresolver/memberships.go
@@ -38,6 +38,11 @@ func (mr *MResolver) SyncGroup(group string, include, exclude []string) {
 
 	mr.gMutex.Lock()
 	mr.atom.gc[group] = &g
+	// The rules that this group had before no longer count, so
+	// changes to the groups they named don't affect it anymore.
+	for _, ga := range mr.atom.ga {
+		delete(ga, group)
+	}
 	mr.gMutex.Unlock()
 
 	// Need to resolve the group here, and re-resolve any
-- 
2.43.0


From 2f44ac67af88d0ccfb04f991d21d38fd31880f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:30 +0000
Subject: [PATCH 19/21] fix: guard the resolver's maps against concurrent
 changes

MembersOfGroup walked the map of direct memberships without its lock and
resolveChanges walked the set of affected groups without one, either of
which brings the server down when another request changes the map.
Concurrent group changes could also lose each other's outcome.
---
 internal/mresolver/memberships.go | 17 +++++++++++++++--
 internal/mresolver/type.go        |  1 +
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/internal/mresolver/memberships.go b/internal/mresolver/memberships.go
index 7d452e8..99c929a 100644
--- a/internal/mresolver/memberships.go
+++ b/internal/mresolver/memberships.go
@@ -30,6 +30,11 @@ func (mr *MResolver) RemoveEntity(entity string) {
 // information in the system, and may trigger a cascading membership
 // recalculation.
 func (mr *MResolver) SyncGroup(group string, include, exclude []string) {
+	// Changes happen one after another, as every one of them has to
+	// see the outcome of those before it.
+	mr.sMutex.Lock()
+	defer mr.sMutex.Unlock()
+
 	g := resolvableGroup{
 		self:    group,
 		include: include,
@@ -76,9 +81,12 @@ func (mr *MResolver) SyncGroup(group string, include, exclude []string) {
 func (mr *MResolver) resolveChanges(group string) {
 	mr.Resolve(group)
 	mr.gMutex.RLock()
-	cascade := mr.atom.ga[group]
+	cascade := make([]string, 0, len(mr.atom.ga[group]))
+	for g := range mr.atom.ga[group] {
+		cascade = append(cascade, g)
+	}
 	mr.gMutex.RUnlock()
-	for g := range cascade {
+	for _, g := range cascade {
 		mr.resolveChanges(g)
 	}
 }
@@ -88,6 +96,9 @@ func (mr *MResolver) resolveChanges(group string) {
 // memberships as this is assumed to have been done prior to deleting
 // the group.
 func (mr *MResolver) RemoveGroup(group string) {
+	mr.sMutex.Lock()
+	defer mr.sMutex.Unlock()
+
 	mr.gMutex.Lock()
 	delete(mr.atom.gc, group)
 	delete(mr.atom.gr, group)
@@ -199,6 +210,8 @@ func (mr *MResolver) MembersOfGroup(group string) []string {
 	if !ok {
 		return []string{}
 	}
+	mr.uMutex.RLock()
+	defer mr.uMutex.RUnlock()
 	return exp.FilterValues(mr.atom.dm)
 }
 
diff --git a/internal/mresolver/type.go b/internal/mresolver/type.go
index 2f56c6e..4d5a2a4 100644
--- a/internal/mresolver/type.go
+++ b/internal/mresolver/type.go
@@ -16,6 +16,7 @@ type MResolver struct {
 
 	uMutex sync.RWMutex
 	gMutex sync.RWMutex
+	sMutex sync.Mutex // Held while a group change is worked in
 
 	atom resolverAtom
 }
-- 
2.43.0


From ebeb88a0fe96cb33dc74c0c3357b1d2b41161597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:40 +0000
Subject: [PATCH 20/21] fix: keep memberships independent of the order of group
 changes

A group with a rule about a group that isn't known (yet, or anymore) was
not resolved at all, and had no members until it was changed again.
Groups that referred to a removed group went on using its last
resolution.  A group that doesn't exist has no members; those that refer
to it are resolved again when it is removed and when it comes to exist.
---
 internal/mresolver/memberships.go | 43 +++++++++++++++++++++----------
 1 file changed, 30 insertions(+), 13 deletions(-)

diff --git a/internal/mresolver/memberships.go b/internal/mresolver/memberships.go
index 99c929a..ef8ba40 100644
--- a/internal/mresolver/memberships.go
+++ b/internal/mresolver/memberships.go
@@ -103,7 +103,6 @@ func (mr *MResolver) RemoveGroup(group string) {
 	delete(mr.atom.gc, group)
 	delete(mr.atom.gr, group)
 	delete(mr.atom.gt, group)
-	delete(mr.atom.ga, group)
 
 	mr.atom.gs.Del(group)
 
@@ -111,6 +110,9 @@ func (mr *MResolver) RemoveGroup(group string) {
 		delete(ga, group)
 	}
 	mr.gMutex.Unlock()
+
+	// The groups with rules about this one can't refer to it anymore.
+	mr.resolveChanges(group)
 }
 
 // Resolve flattens out the membership tree and associated subtrees
@@ -128,6 +130,7 @@ func (mr *MResolver) Resolve(group string) error {
 
 	mr.l.Trace("Resolving Group", "group", group)
 
+	var missing error
 	res := []bsfilter.Symbol{}
 	res = append(res, bsfilter.Symbol{T: bsfilter.SymbolLParen})
 	res = append(res, bsfilter.Symbol{T: bsfilter.SymbolIdent, Ident: g.self})
@@ -136,8 +139,6 @@ func (mr *MResolver) Resolve(group string) error {
 	// the higher level and swapping between a logical operator
 	// between loop iterations.
 	for _, gn := range g.include {
-		res = append(res, bsfilter.Symbol{T: bsfilter.SymbolBinaryOr})
-		res = append(res, bsfilter.Symbol{T: bsfilter.SymbolLParen})
 		mr.gMutex.RLock()
 		// Check if an existing resolution is known for this
 		// group name.  If not, resolve that group and then
@@ -151,22 +152,28 @@ func (mr *MResolver) Resolve(group string) error {
 			// potentially deadlock if another thread is
 			// reading and trying to resolve.
 			if err := mr.Resolve(gn); err != nil {
-				return err
+				missing = err
 			}
 			mr.gMutex.RLock()
 			// At this point this is populated from the
-			// above call and can be retreived
-			r = mr.atom.gt[gn]
+			// above call and can be retreived, unless there
+			// is no such group.
+			r, ok = mr.atom.gt[gn]
 			mr.gMutex.RUnlock()
+			if !ok {
+				// A group that doesn't exist has no
+				// members.  This group is resolved
+				// again should it come to exist.
+				continue
+			}
 		}
+		res = append(res, bsfilter.Symbol{T: bsfilter.SymbolBinaryOr})
+		res = append(res, bsfilter.Symbol{T: bsfilter.SymbolLParen})
 		res = append(res, r...)
 		res = append(res, bsfilter.Symbol{T: bsfilter.SymbolRParen})
 	}
 	res = append(res, bsfilter.Symbol{T: bsfilter.SymbolRParen})
 	for _, gn := range g.exclude {
-		res = append(res, bsfilter.Symbol{T: bsfilter.SymbolBinaryAnd})
-		res = append(res, bsfilter.Symbol{T: bsfilter.SymbolUnaryNot})
-		res = append(res, bsfilter.Symbol{T: bsfilter.SymbolLParen})
 		mr.gMutex.RLock()
 		// Check if an existing resolution is known for this
 		// group name.  If not, resolve that group and then
@@ -180,14 +187,24 @@ func (mr *MResolver) Resolve(group string) error {
 			// potentially deadlock if another thread is
 			// reading and trying to resolve.
 			if err := mr.Resolve(gn); err != nil {
-				return err
+				missing = err
 			}
 			mr.gMutex.RLock()
 			// At this point this is populated from the
-			// above call and can be retreived
-			r = mr.atom.gt[gn]
+			// above call and can be retreived, unless there
+			// is no such group.
+			r, ok = mr.atom.gt[gn]
 			mr.gMutex.RUnlock()
+			if !ok {
+				// A group that doesn't exist has no
+				// members.  This group is resolved
+				// again should it come to exist.
+				continue
+			}
 		}
+		res = append(res, bsfilter.Symbol{T: bsfilter.SymbolBinaryAnd})
+		res = append(res, bsfilter.Symbol{T: bsfilter.SymbolUnaryNot})
+		res = append(res, bsfilter.Symbol{T: bsfilter.SymbolLParen})
 		res = append(res, r...)
 		res = append(res, bsfilter.Symbol{T: bsfilter.SymbolRParen})
 	}
@@ -198,7 +215,7 @@ func (mr *MResolver) Resolve(group string) error {
 	mr.atom.gs.Add(group, expr)
 	mr.gMutex.Unlock()
 	mr.l.Debug("Group Resolved", "group", group, "expression", expr)
-	return nil
+	return missing
 }
 
 // MembersOfGroup returns a list of all entities that are a member of
-- 
2.43.0


From 04c24a77b080721a7c04abdda28815d590bb25e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:33 +0000
Subject: [PATCH 21/21] fix: survive the health check of a plugin that did not
 start

---
 internal/plugin/tree/consumer/main.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/plugin/tree/consumer/main.go b/internal/plugin/tree/consumer/main.go
index 59797e8..07504f0 100644
--- a/internal/plugin/tree/consumer/main.go
+++ b/internal/plugin/tree/consumer/main.go
@@ -80,6 +80,13 @@ func (r *Ref) healthCheck() health.SubsystemStatus {
 		Status: "Plugin is OK",
 	}
 
+	// A plugin that could not be started has no client.
+	if r.client == nil {
+		status.OK = false
+		status.Status = "Plugin is not running"
+		return status
+	}
+
 	err := r.client.Ping()
 	if err != nil {
 		status.OK = false
-- 
2.43.0

