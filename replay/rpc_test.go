//go:build go1.18

package all_test

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"testing"

	"github.com/golang/protobuf/proto"
	"github.com/hashicorp/go-hclog"
	"github.com/spf13/viper"
	"google.golang.org/grpc/metadata"

	"github.com/netauth/netauth/internal/db"
	"github.com/netauth/netauth/internal/rpc2"
	"github.com/netauth/netauth/internal/token"
	"github.com/netauth/netauth/internal/tree"

	types "github.com/netauth/protocol"
	pb "github.com/netauth/protocol/v2"
)

// tokens is a token service that knows the tokens it is told of.
type tokens struct {
	known map[string]token.Claims // good tokens
	gen   []token.Claims
	fail  bool
}

func (s *tokens) Generate(c token.Claims, _ token.Config) (string, error) {
	s.gen = append(s.gen, c)
	if s.fail {
		return "half-made", errFault
	}
	return "issued", nil
}

// Validate returns powerful claims also with an error, which nobody should
// look at then.
func (s *tokens) Validate(t string) (token.Claims, error) {
	if c, ok := s.known[t]; ok {
		return c, nil
	}
	return token.Claims{EntityID: "e1", Capabilities: []types.Capability{types.Capability_GLOBAL_ROOT}}, errors.New("bad token")
}

func hasCap(c token.Claims, k types.Capability) bool {
	return inList(k, c.Capabilities) || inList(types.Capability_GLOBAL_ROOT, c.Capabilities)
}

// call is one request: how it is made, and what it stands for.
type call struct {
	what string
	do   func(*rpc2.Server, context.Context) (proto.Message, error)
	// twin does what the request stands for on a manager of its own
	twin    func(*tree.Manager) (proto.Message, error)
	mut     bool
	bad     bool // an action the request doesn't allow
	cap     types.Capability
	grp     string // group that may be managed by its managers
	self    string // entity that may do this itself
	hasSelf bool
	exact   bool // also compare the kind of error
	isGrp   bool
	prop    string

	add    bool
	id     string
	groups []string
}

func req(r *rand.Rand) *call {
	c := &call{}
	id, gid := pick(r, entIDs), pick(r, grpIDs)
	sec, n := pick(r, secrets), pick(r, numbers)
	actions := []pb.Action{pb.Action_ADD, pb.Action_DROP, pb.Action_UPSERT, pb.Action_CLEAREXACT, pb.Action_CLEARFUZZY, pb.Action_READ, pb.Action(77)}
	act := pick(r, actions)
	some := r.Intn(12) > 0
	ent := &types.Entity{ID: &id, Number: &n, Secret: &sec, Meta: randMeta(r)}
	if r.Intn(4) == 0 {
		ent.Meta = nil
	}
	grp := randGroup(r, gid, n)
	if r.Intn(2) == 0 {
		grp.ManagedBy = proto.String(pick(r, append([]string{""}, grpIDs...)))
	}
	er, gr := &pb.EntityRequest{}, &pb.GroupRequest{}
	if some {
		er.Entity, er.Data = ent, proto.Clone(ent).(*types.Entity)
		gr.Group, gr.Data = grp, proto.Clone(grp).(*types.Group)
	}
	if r.Intn(6) == 0 {
		er.Data = nil
	}
	// the operations may use up the messages they are given
	var ge *types.Entity
	var gg *types.Group
	var gd *types.Entity
	if er.Entity != nil {
		ge = proto.Clone(er.Entity).(*types.Entity)
	}
	if er.Data != nil {
		gd = proto.Clone(er.Data).(*types.Entity)
	}
	if gr.Group != nil {
		gg = proto.Clone(gr.Group).(*types.Group)
	}
	none := func(err error) (proto.Message, error) { return &pb.Empty{}, err }
	kvr := &pb.KVRequest{Target: &id, Action: &act, Key: proto.String(pick(r, append(umKeys, "*"))), Value: proto.String(pick(r, umVals))}
	kv2 := &pb.KV2Request{Target: &id, Data: kvEntry(r, pick(r, kvKeys))}
	if r.Intn(12) == 0 {
		kv2.Data = nil
	}
	kvl := []*types.KVData{nil}
	if kv2.Data != nil {
		kvl[0] = proto.Clone(kv2.Data).(*types.KVData)
	}
	m := func(cp types.Capability) { c.mut, c.cap = true, cp }
	switch r.Intn(33) {
	case 0:
		m(types.Capability_CREATE_ENTITY)
		c.exact = true
		c.what, c.prop = "EntityCreate "+show2(er), "C17 C18"
		c.do = func(s *rpc2.Server, x context.Context) (proto.Message, error) { return s.EntityCreate(x, er) }
		c.twin = func(t *tree.Manager) (proto.Message, error) {
			return none(t.CreateEntity(ge.GetID(), ge.GetNumber(), ge.GetSecret()))
		}
	case 1:
		m(types.Capability_MODIFY_ENTITY_META)
		c.exact = true
		c.what, c.prop = "EntityUpdate "+show2(er), "C10"
		c.do = func(s *rpc2.Server, x context.Context) (proto.Message, error) { return s.EntityUpdate(x, er) }
		c.twin = func(t *tree.Manager) (proto.Message, error) {
			return none(t.UpdateEntityMeta(gd.GetID(), gd.GetMeta()))
		}
	case 2:
		c.exact = true
		c.what, c.prop = "EntityInfo "+show2(er), "C07"
		c.do = func(s *rpc2.Server, x context.Context) (proto.Message, error) { return s.EntityInfo(x, er) }
		c.twin = func(t *tree.Manager) (proto.Message, error) {
			e, err := t.FetchEntity(ge.GetID())
			return &pb.ListOfEntities{Entities: []*types.Entity{e}}, err
		}
	case 3:
		q := &pb.SearchRequest{Expression: proto.String("x")}
		c.what, c.prop = "EntitySearch", "C07"
		c.do = func(s *rpc2.Server, x context.Context) (proto.Message, error) { return s.EntitySearch(x, q) }
		c.twin = func(t *tree.Manager) (proto.Message, error) {
			l, err := t.SearchEntities(db.SearchRequest{Expression: "x"})
			return &pb.ListOfEntities{Entities: l}, err
		}
	case 4:
		c.exact = true
		c.bad = !inList(act, []pb.Action{pb.Action_READ, pb.Action_UPSERT, pb.Action_CLEAREXACT, pb.Action_CLEARFUZZY})
		if act != pb.Action_READ {
			m(types.Capability_MODIFY_ENTITY_META)
		}
		c.what, c.prop = "EntityUM "+show2(kvr), "C15"
		c.do = func(s *rpc2.Server, x context.Context) (proto.Message, error) { return s.EntityUM(x, kvr) }
		c.twin = func(t *tree.Manager) (proto.Message, error) {
			l, err := t.ManageUntypedEntityMeta(id, act.String(), kvr.GetKey(), kvr.GetValue())
			return &pb.ListOfStrings{Strings: l}, err
		}
	case 5:
		c.exact = true
		c.what, c.prop = "EntityKVGet "+show2(kv2), "C14"
		c.do = func(s *rpc2.Server, x context.Context) (proto.Message, error) { return s.EntityKVGet(x, kv2) }
		c.twin = func(t *tree.Manager) (proto.Message, error) {
			l, err := t.EntityKVGet(id, kvl)
			return &pb.ListOfKVData{KVData: l}, err
		}
	case 6:
		m(types.Capability_MODIFY_ENTITY_META)
		c.exact = true
		c.what, c.prop = "EntityKVAdd "+show2(kv2), "C14"
		c.do = func(s *rpc2.Server, x context.Context) (proto.Message, error) { return s.EntityKVAdd(x, kv2) }
		c.twin = func(t *tree.Manager) (proto.Message, error) { return none(t.EntityKVAdd(id, kvl)) }
	case 7:
		m(types.Capability_MODIFY_ENTITY_META)
		c.exact = true
		c.what, c.prop = "EntityKVDel "+show2(kv2), "C14"
		c.do = func(s *rpc2.Server, x context.Context) (proto.Message, error) { return s.EntityKVDel(x, kv2) }
		c.twin = func(t *tree.Manager) (proto.Message, error) { return none(t.EntityKVDel(id, kvl)) }
	case 8:
		m(types.Capability_MODIFY_ENTITY_META)
		c.exact = true
		c.what, c.prop = "EntityKVReplace "+show2(kv2), "C14"
		c.do = func(s *rpc2.Server, x context.Context) (proto.Message, error) { return s.EntityKVReplace(x, kv2) }
		c.twin = func(t *tree.Manager) (proto.Message, error) { return none(t.EntityKVReplace(id, kvl)) }
	case 9:
		c.exact = true
		kvr.Key, kvr.Value = proto.String(pick(r, keyTy)), proto.String(pick(r, keyVal))
		c.bad = !inList(act, []pb.Action{pb.Action_READ, pb.Action_ADD, pb.Action_DROP})
		if act != pb.Action_READ {
			m(types.Capability_MODIFY_ENTITY_KEYS)
			c.self, c.hasSelf = id, true
		}
		c.what, c.prop = "EntityKeys "+show2(kvr), "C34"
		c.do = func(s *rpc2.Server, x context.Context) (proto.Message, error) { return s.EntityKeys(x, kvr) }
		c.twin = func(t *tree.Manager) (proto.Message, error) {
			l, err := t.UpdateEntityKeys(id, act.String(), kvr.GetKey(), kvr.GetValue())
			return &pb.ListOfStrings{Strings: l}, err
		}
	case 10:
		m(types.Capability_DESTROY_ENTITY)
		c.exact = true
		c.what = "EntityDestroy " + show2(er)
		c.do = func(s *rpc2.Server, x context.Context) (proto.Message, error) { return s.EntityDestroy(x, er) }
		c.twin = func(t *tree.Manager) (proto.Message, error) { return none(t.DestroyEntity(ge.GetID())) }
	case 11:
		m(types.Capability_LOCK_ENTITY)
		c.exact = true
		c.what, c.prop = "EntityLock "+show2(er), "C09"
		c.do = func(s *rpc2.Server, x context.Context) (proto.Message, error) { return s.EntityLock(x, er) }
		c.twin = func(t *tree.Manager) (proto.Message, error) { return none(t.LockEntity(ge.GetID())) }
	case 12:
		m(types.Capability_UNLOCK_ENTITY)
		c.exact = true
		c.what, c.prop = "EntityUnlock "+show2(er), "C09"
		c.do = func(s *rpc2.Server, x context.Context) (proto.Message, error) { return s.EntityUnlock(x, er) }
		c.twin = func(t *tree.Manager) (proto.Message, error) { return none(t.UnlockEntity(ge.GetID())) }
	case 13:
		c.exact = true
		c.what, c.prop = "EntityGroups "+show2(er), "C22"
		c.do = func(s *rpc2.Server, x context.Context) (proto.Message, error) { return s.EntityGroups(x, er) }
		c.twin = func(t *tree.Manager) (proto.Message, error) {
			e, err := t.FetchEntity(ge.GetID())
			if err != nil {
				return nil, err
			}
			l := &pb.ListOfGroups{}
			for _, n := range t.GetMemberships(e) {
				g, err := t.FetchGroup(n)
				if err != nil {
					return nil, err
				}
				l.Groups = append(l.Groups, g)
			}
			return l, nil
		}
	case 14, 15, 16, 17:
		return authReq(r, c)
	case 18:
		m(types.Capability_CREATE_GROUP)
		c.exact = true
		c.what, c.prop = "GroupCreate "+show2(gr), "C17 C18"
		c.do = func(s *rpc2.Server, x context.Context) (proto.Message, error) { return s.GroupCreate(x, gr) }
		c.twin = func(t *tree.Manager) (proto.Message, error) {
			return none(t.CreateGroup(gg.GetName(), gg.GetDisplayName(), gg.GetManagedBy(), gg.GetNumber()))
		}
	case 19:
		m(types.Capability_MODIFY_GROUP_META)
		c.grp, c.isGrp = gg.GetName(), true
		c.exact = true
		c.what, c.prop = "GroupUpdate "+show2(gr), "C10"
		c.do = func(s *rpc2.Server, x context.Context) (proto.Message, error) { return s.GroupUpdate(x, gr) }
		c.twin = func(t *tree.Manager) (proto.Message, error) { return none(t.UpdateGroupMeta(gg.GetName(), gg)) }
		if !some {
			c.twin = func(t *tree.Manager) (proto.Message, error) { return none(t.UpdateGroupMeta("", nil)) }
		}
	case 20:
		c.exact = true
		c.what = "GroupInfo " + show2(gr)
		c.do = func(s *rpc2.Server, x context.Context) (proto.Message, error) { return s.GroupInfo(x, gr) }
		c.twin = func(t *tree.Manager) (proto.Message, error) {
			g, err := t.FetchGroup(gg.GetName())
			return &pb.ListOfGroups{Groups: []*types.Group{g}}, err
		}
	case 21:
		kvr.Target = &gid
		c.exact = true
		c.bad = !inList(act, []pb.Action{pb.Action_READ, pb.Action_UPSERT, pb.Action_CLEAREXACT, pb.Action_CLEARFUZZY})
		if act != pb.Action_READ {
			m(types.Capability_MODIFY_GROUP_META)
			c.grp, c.isGrp = gid, true
		}
		c.what, c.prop = "GroupUM "+show2(kvr), "C15"
		c.do = func(s *rpc2.Server, x context.Context) (proto.Message, error) { return s.GroupUM(x, kvr) }
		c.twin = func(t *tree.Manager) (proto.Message, error) {
			l, err := t.ManageUntypedGroupMeta(gid, act.String(), kvr.GetKey(), kvr.GetValue())
			return &pb.ListOfStrings{Strings: l}, err
		}
	case 22:
		kv2.Target = &gid
		c.what, c.prop = "GroupKVGet "+show2(kv2), "C14"
		c.do = func(s *rpc2.Server, x context.Context) (proto.Message, error) { return s.GroupKVGet(x, kv2) }
		c.twin = func(t *tree.Manager) (proto.Message, error) {
			l, err := t.GroupKVGet(gid, kvl)
			return &pb.ListOfKVData{KVData: l}, err
		}
	case 23, 24, 25:
		kv2.Target = &gid
		m(types.Capability_MODIFY_GROUP_META)
		c.prop = "C14"
		switch r.Intn(3) {
		case 0:
			c.what = "GroupKVAdd " + show2(kv2)
			c.do = func(s *rpc2.Server, x context.Context) (proto.Message, error) { return s.GroupKVAdd(x, kv2) }
			c.twin = func(t *tree.Manager) (proto.Message, error) { return none(t.GroupKVAdd(gid, kvl)) }
		case 1:
			c.what = "GroupKVDel " + show2(kv2)
			c.do = func(s *rpc2.Server, x context.Context) (proto.Message, error) { return s.GroupKVDel(x, kv2) }
			c.twin = func(t *tree.Manager) (proto.Message, error) { return none(t.GroupKVDel(gid, kvl)) }
		default:
			c.what = "GroupKVReplace " + show2(kv2)
			c.do = func(s *rpc2.Server, x context.Context) (proto.Message, error) { return s.GroupKVReplace(x, kv2) }
			c.twin = func(t *tree.Manager) (proto.Message, error) { return none(t.GroupKVReplace(gid, kvl)) }
		}
	case 26:
		rule := pick(r, []pb.RuleAction{pb.RuleAction_INCLUDE, pb.RuleAction_EXCLUDE, pb.RuleAction_REMOVE_RULE})
		q := &pb.GroupRulesRequest{RuleAction: &rule}
		if some {
			q.Group = grp
		}
		if r.Intn(8) > 0 {
			q.Target = &types.Group{Name: proto.String(pick(r, grpIDs))}
		}
		m(types.Capability_MODIFY_GROUP_META)
		c.grp, c.isGrp = q.GetGroup().GetName(), true
		c.what, c.prop = "GroupUpdateRules "+show2(q), "C16"
		c.do = func(s *rpc2.Server, x context.Context) (proto.Message, error) { return s.GroupUpdateRules(x, q) }
		c.twin = func(t *tree.Manager) (proto.Message, error) {
			return none(t.ModifyGroupRule(q.GetGroup().GetName(), q.GetTarget().GetName(), rule))
		}
	case 27, 28:
		return memberReq(r, c, er)
	case 29:
		m(types.Capability_DESTROY_GROUP)
		c.exact, c.isGrp = true, false
		c.what = "GroupDestroy " + show2(gr)
		c.do = func(s *rpc2.Server, x context.Context) (proto.Message, error) { return s.GroupDestroy(x, gr) }
		c.twin = func(t *tree.Manager) (proto.Message, error) { return none(t.DestroyGroup(gg.GetName())) }
	case 30:
		c.exact = true
		c.what, c.prop = "GroupMembers "+show2(gr), "C22 C07"
		c.do = func(s *rpc2.Server, x context.Context) (proto.Message, error) { return s.GroupMembers(x, gr) }
		c.twin = func(t *tree.Manager) (proto.Message, error) {
			if _, err := t.FetchGroup(gg.GetName()); err != nil {
				return nil, err
			}
			l, err := t.ListMembers(gg.GetName())
			return &pb.ListOfEntities{Entities: l}, err
		}
	case 31:
		q := &pb.SearchRequest{Expression: proto.String("x")}
		c.what = "GroupSearch"
		c.do = func(s *rpc2.Server, x context.Context) (proto.Message, error) { return s.GroupSearch(x, q) }
		c.twin = func(t *tree.Manager) (proto.Message, error) {
			l, err := t.SearchGroups(db.SearchRequest{Expression: "x"})
			return &pb.ListOfGroups{Groups: l}, err
		}
	default:
		direct := r.Intn(2) == 0
		tgt := gid
		if direct {
			tgt = id
		}
		if r.Intn(6) == 0 {
			tgt = ""
		}
		q := &pb.CapabilityRequest{Direct: &direct, Target: &tgt, Action: &act}
		if r.Intn(8) > 0 {
			k := pick(r, append(capNs, 9999))
			q.Capability = &k
		}
		m(types.Capability_GLOBAL_ROOT)
		c.what, c.prop = "SystemCapabilities "+show2(q), "C12"
		c.bad = tgt == "" || act != pb.Action_ADD && act != pb.Action_DROP
		c.do = func(s *rpc2.Server, x context.Context) (proto.Message, error) { return s.SystemCapabilities(x, q) }
		c.twin = func(t *tree.Manager) (proto.Message, error) {
			switch {
			case direct && act == pb.Action_ADD:
				return none(t.SetEntityCapability2(tgt, q.Capability))
			case direct:
				return none(t.DropEntityCapability2(tgt, q.Capability))
			case act == pb.Action_ADD:
				return none(t.SetGroupCapability2(tgt, q.Capability))
			}
			return none(t.DropGroupCapability2(tgt, q.Capability))
		}
	}
	return c
}

func show2(m proto.Message) string { return "{" + proto.CompactTextString(m) + "}" }

// authReq and memberReq are decided by themselves in TestRPC.
func authReq(r *rand.Rand, c *call) *call {
	id := pick(r, append(entIDs, "", "nobody"))
	q := &pb.AuthRequest{Secret: proto.String(pick(r, secrets)), Token: proto.String(pick(r, []string{"", "good1", "bad", "good2"}))}
	if r.Intn(10) > 0 {
		q.Entity = &types.Entity{ID: &id, Secret: proto.String(pick(r, secrets))}
	}
	kind := r.Intn(4)
	c.what = []string{"AuthEntity ", "AuthGetToken ", "AuthValidateToken ", "AuthChangeSecret "}[kind] + show2(q)
	c.prop = []string{"C08 C09", "C04", "C06", "C08"}[kind]
	switch kind {
	case 0:
		c.exact = true
		c.do = func(s *rpc2.Server, x context.Context) (proto.Message, error) { return s.AuthEntity(x, q) }
		c.twin = func(t *tree.Manager) (proto.Message, error) {
			return &pb.Empty{}, t.ValidateSecret(q.GetEntity().GetID(), q.GetSecret())
		}
		c.exact = false
	case 1:
		c.what = "AuthGetToken " + show2(q)
		c.do = func(s *rpc2.Server, x context.Context) (proto.Message, error) { return s.AuthGetToken(x, q) }
		c.self = q.GetEntity().GetID()
		c.twin = func(t *tree.Manager) (proto.Message, error) {
			return nil, t.ValidateSecret(q.GetEntity().GetID(), q.GetSecret())
		}
	case 2:
		c.do = func(s *rpc2.Server, x context.Context) (proto.Message, error) { return s.AuthValidateToken(x, q) }
		ok := strings.HasPrefix(q.GetToken(), "good")
		c.twin = func(t *tree.Manager) (proto.Message, error) {
			if !ok {
				return nil, errFault
			}
			return &pb.Empty{}, nil
		}
	default:
		c.mut, c.cap = true, types.Capability_CHANGE_ENTITY_SECRET
		c.self = q.GetEntity().GetID()
		c.do = func(s *rpc2.Server, x context.Context) (proto.Message, error) { return s.AuthChangeSecret(x, q) }
		c.twin = func(t *tree.Manager) (proto.Message, error) {
			return &pb.Empty{}, t.SetSecret(q.GetEntity().GetID(), q.GetSecret())
		}
		old := q.GetEntity().GetSecret()
		c.what = "AuthChangeSecret " + show2(q)
		c.isGrp = false
		c.grp = "\x00" + old // the presented secret
	}
	return c
}

func memberReq(r *rand.Rand, c *call, q *pb.EntityRequest) *call {
	add := r.Intn(2) == 0
	c.mut, c.cap = true, types.Capability_MODIFY_GROUP_MEMBERS
	c.prop = "C13"
	if add {
		c.what = "GroupAddMember " + show2(q)
		c.do = func(s *rpc2.Server, x context.Context) (proto.Message, error) { return s.GroupAddMember(x, q) }
	} else {
		c.what = "GroupDelMember " + show2(q)
		c.do = func(s *rpc2.Server, x context.Context) (proto.Message, error) { return s.GroupDelMember(x, q) }
	}
	c.twin = nil
	c.self = "\x01"
	c.add, c.id, c.groups = add, q.GetEntity().GetID(), append([]string{}, q.GetEntity().GetMeta().GetGroups()...)
	return c
}

// manages: the rule of delegated management.
func manages(im image, who, grp string) bool {
	g := im.grps[grp]
	if g == nil || g.GetManagedBy() == "" || im.ents[who] == nil {
		return false
	}
	return isMember(im, who, g.GetManagedBy(), 10)
}

// sameReply compares replies; lists of entities, groups and strings are
// compared as sets, as their order is not fixed.
func sameReply(a, b proto.Message) bool {
	set := func(m proto.Message) ([]string, bool) {
		var out []string
		switch v := m.(type) {
		case *pb.ListOfEntities:
			for _, e := range v.Entities {
				e = proto.Clone(e).(*types.Entity)
				e.Secret = nil
				out = append(out, show(e))
			}
		case *pb.ListOfGroups:
			for _, e := range v.Groups {
				out = append(out, show(e))
			}
		case *pb.ListOfStrings:
			out = v.Strings
		case *pb.ListOfKVData:
			for _, e := range v.KVData {
				out = append(out, proto.CompactTextString(e))
			}
		default:
			return nil, false
		}
		return out, true
	}
	x, ok1 := set(a)
	y, ok2 := set(b)
	if ok1 && ok2 {
		return sameSet(x, y) && len(x) == len(y)
	}
	return true
}

// TestRPC makes requests of every kind with tokens of every kind.
func TestRPC(t *testing.T) {
	for seed := int64(1); seed < 400000 && !timeUp(); seed++ {
		r := rand.New(rand.NewSource(seed))
		st := randStore(r)
		for _, g := range keysOf(st.grps) {
			if r.Intn(2) == 0 {
				st.grps[g].ManagedBy = proto.String(pick(r, append([]string{""}, grpIDs...)))
			}
		}
		m := newManager(t, st)
		tk := &tokens{known: map[string]token.Claims{}, fail: r.Intn(6) == 0}
		for _, n := range []string{"good1", "good2"} {
			caps := some(r, append(capNs, types.Capability(r.Intn(30)), types.Capability(r.Intn(30))), 3)
			tk.known[n] = token.Claims{EntityID: pick(r, append(entIDs, "", "nobody")), Capabilities: caps}
		}
		ro := r.Intn(6) == 0
		viper.Set("server.readonly", ro)
		srv := rpc2.New(rpc2.Refs{TokenService: tk, Tree: m}, hclog.NewNullLogger())
		for i := 0; i < 4; i++ {
			oneRPC(t, r, st, srv, tk, ro)
		}
	}
}

func oneRPC(t *testing.T, r *rand.Rand, st *store, srv *rpc2.Server, tk *tokens, ro bool) {
	c := req(r)
	if c.mut && c.cap != 0 {
		// have the capability in question often enough
		k := tk.known["good1"]
		if r.Intn(2) == 0 {
			k.Capabilities = append(append([]types.Capability{}, k.Capabilities...), c.cap)
			tk.known["good1"] = k
		}
	}
	auth := pick(r, [][]string{nil, {"bad"}, {""}, {"good1"}, {"good1"}, {"good1"}, {"good2"}, {"good2"}, {"good1", "good1"}, {"good1", "bad"}, {"bad", "good1"}})
	md := metadata.MD{}
	if len(auth) > 0 {
		md["authorization"] = auth
	}
	ctx := metadata.NewIncomingContext(context.Background(), md)
	if auth == nil && r.Intn(2) == 0 {
		ctx = context.Background()
	}
	st.calls, st.werr, st.writes = 0, nil, 0
	st.faulty, st.failAt, st.late = r.Intn(6) == 0, 1+r.Intn(4), r.Intn(2) == 0
	old := st.snap()
	tk.gen = nil
	var out proto.Message
	var err error
	what := fmt.Sprintf("%s with tokens %q (%s), readonly %v", c.what, auth, claimsOf(tk, auth), ro)
	guard(t, &what, st, func() { out, err = c.do(srv, ctx) })
	faulted := st.faulty && st.calls >= st.failAt
	st.faulty = false
	now := st.snap()
	changed := sameImage(old, now)

	if err != nil && st.werr == nil && changed != "" && c.self != "\x01" {
		report(t, "C11 C01 C28", "%s fails (%v) and yet %s", what, err, changed)
	}
	if st.werr != nil && err == nil {
		report(t, "C28", "%s: storing failed and the reply is success", what)
	}
	if le, ok := out.(*pb.ListOfEntities); ok {
		for _, e := range le.Entities {
			if e.GetSecret() != "" && e.GetSecret() != "<REDACTED>" {
				report(t, "C07", "%s shows a secret: %s", what, show(e))
			}
		}
	}
	if !c.mut {
		if changed != "" {
			report(t, "C11", "%s reads, and yet %s", what, changed)
		}
	} else {
		if ro {
			if changed != "" || st.writes > 0 {
				report(t, "C02", "%s: %s", what, changed)
			}
			if err != rpc2.ErrReadOnly && !c.bad {
				report(t, "C02", "%s is answered with %v", what, err)
			}
			return
		}
		good := len(auth) == 1 && strings.HasPrefix(auth[0], "good")
		var cl token.Claims
		if good {
			cl = tk.known[auth[0]]
		}
		if c.self == "\x01" {
			members2(t, c, old, now, cl, good, err, what, changed, faulted)
			return
		}
		ok := good && hasCap(cl, c.cap)
		alt := false
		if strings.HasPrefix(c.what, "AuthChangeSecret") {
			if good && cl.EntityID == c.self {
				e := old.ents[c.self]
				ok = e != nil && !e.GetMeta().GetLocked() && verifies(c.grp[1:], e.GetSecret())
				alt = true
			}
		} else if good && !ok {
			if c.hasSelf && cl.EntityID == c.self {
				ok, alt = true, true
			}
			if c.isGrp && manages(old, cl.EntityID, c.grp) {
				ok, alt = true, true
			}
		}
		if !ok {
			if changed != "" || st.writes > 0 {
				report(t, "C01 C03", "%s is not authorised, and yet %s", what, changed)
			}
			if err == nil {
				report(t, "C01 C03 C28", "%s is not authorised and succeeds", what)
			}
			return
		}
		if c.bad {
			if err == nil {
				report(t, "C28 "+c.prop, "%s is malformed and succeeds", what)
			}
			return
		}
		if !faulted && (err == rpc2.ErrRequestorUnqualified || err == rpc2.ErrUnauthenticated || err == rpc2.ErrReadOnly) {
			p := "C03 C05"
			if !alt {
				p = "C05"
			}
			report(t, p, "%s is authorised and refused with %v", what, err)
		}
	}
	if c.bad {
		if err == nil {
			report(t, "C28 "+c.prop, "%s is malformed and succeeds", what)
		}
		return
	}
	// what the operation does on its own
	ts := newStore()
	for k, e := range old.ents {
		ts.ents[k] = proto.Clone(e).(*types.Entity)
	}
	for k, e := range old.grps {
		ts.grps[k] = proto.Clone(e).(*types.Group)
	}
	tm := newManager(t, ts)
	var tout proto.Message
	var terr error
	guard(t, &what, st, func() { tout, terr = c.twin(tm) })
	if strings.HasPrefix(c.what, "AuthGetToken") {
		tokenIssued(t, c, old, tk, out, err, terr, what, faulted)
		return
	}
	if faulted {
		return
	}
	if (err == nil) != (terr == nil) {
		report(t, "C28 "+c.prop, "%s is answered with %v, but the operation ends with %v", what, err, terr)
	}
	if c.exact {
		if (terr == db.ErrUnknownEntity || terr == db.ErrUnknownGroup) != (err == rpc2.ErrDoesNotExist) && terr != tree.ErrNoSuchKey && !strings.HasPrefix(c.what, "GroupCreate") {
			report(t, "C28", "%s is answered with %v, but the operation ends with %v", what, err, terr)
		}
		dup := terr == tree.ErrDuplicateEntityID || terr == tree.ErrDuplicateGroupName || terr == tree.ErrDuplicateNumber
		if dup != (err == rpc2.ErrExists) && terr != tree.ErrKeyExists {
			report(t, "C28", "%s is answered with %v, but the operation ends with %v", what, err, terr)
		}
	}
	if err != nil {
		return
	}
	if !sameReply(out, tout) {
		report(t, "C28 "+c.prop, "%s returns %s, the operation %s", what, show2(out), show2(tout))
	}
	ti := ts.snap()
	for _, im := range []image{ti, now} {
		for _, e := range im.ents {
			if i := strings.LastIndex(e.GetSecret(), "#"); i >= 0 {
				e.Secret = proto.String(e.GetSecret()[:i])
			}
			if e.Meta != nil {
				sort.Strings(e.Meta.Keys)
				sort.Strings(e.Meta.Groups)
				sort.Strings(e.Meta.UntypedMeta)
				sort.Slice(e.Meta.Capabilities, func(i, j int) bool { return e.Meta.Capabilities[i] < e.Meta.Capabilities[j] })
			}
		}
		for _, g := range im.grps {
			sort.Strings(g.Expansions)
			sort.Strings(g.UntypedMeta)
			sort.Slice(g.Capabilities, func(i, j int) bool { return g.Capabilities[i] < g.Capabilities[j] })
		}
	}
	if d := sameImage(ti, now); d != "" {
		report(t, "C28 C11 "+c.prop, "%s: after the operation %s", what, d)
	}
}

func claimsOf(tk *tokens, auth []string) string {
	s := ""
	for _, a := range auth {
		if c, ok := tk.known[a]; ok {
			s += fmt.Sprintf("%q %v ", c.EntityID, c.Capabilities)
		}
	}
	return s
}

// tokenIssued judges a token request.
func tokenIssued(t *testing.T, c *call, old image, tk *tokens, out proto.Message, err, terr error, what string, faulted bool) {
	tok := out.(*pb.AuthResult).GetToken()
	if err != nil {
		if tok != "" {
			report(t, "C04", "%s is answered with %v and the token %q", what, err, tok)
		}
		if terr == nil && !faulted && !tk.fail {
			report(t, "C28 C04", "%s is answered with %v", what, err)
		}
		return
	}
	if terr != nil {
		report(t, "C04 C08 C09", "%s: a token is issued, but validating the secret gives %v", what, terr)
	}
	if tk.fail || len(tk.gen) == 0 {
		report(t, "C04", "%s: success and token %q, but generating it failed", what, tok)
		return
	}
	if tok != "issued" {
		report(t, "C04", "%s returns the token %q", what, tok)
	}
	cl := tk.gen[len(tk.gen)-1]
	if cl.EntityID != c.self {
		report(t, "C04", "%s: the token names %q", what, cl.EntityID)
	}
	want := append([]types.Capability{}, old.ents[c.self].GetMeta().GetCapabilities()...)
	for g := range old.grps {
		if isMember(old, c.self, g, 10) {
			want = append(want, old.grps[g].GetCapabilities()...)
		}
	}
	for _, k := range cl.Capabilities {
		if !inList(k, want) {
			report(t, "C04", "%s: the token carries %v, the entity has %v", what, cl.Capabilities, want)
		}
	}
	if !faulted && !sameSet(cl.Capabilities, want) {
		report(t, "C04", "%s: the token carries %v, the entity has %v", what, cl.Capabilities, want)
	}
}

// members2 judges the two requests about members, which name many groups.
func members2(t *testing.T, c *call, old, now image, cl token.Claims, good bool, err error, what, changed string, faulted bool) {
	add, id, gs := c.add, c.id, c.groups
	im := image{old.ents, old.grps}
	e := old.ents[id]
	cur := append([]string{}, e.GetMeta().GetGroups()...)
	refused := false
	for _, g := range gs {
		if !good || !hasCap(cl, c.cap) && !manages(im, cl.EntityID, g) {
			refused = true
			break
		}
		if e == nil {
			break
		}
		var nxt []string
		for _, x := range cur {
			if x != g {
				nxt = append(nxt, x)
			}
		}
		if add {
			nxt = append(nxt, g)
		}
		cur = nxt
		ne := proto.Clone(e).(*types.Entity)
		if ne.Meta == nil {
			ne.Meta = &types.EntityMeta{}
		}
		ne.Meta.Groups = cur
		im.ents = map[string]*types.Entity{}
		for k, v := range old.ents {
			im.ents[k] = v
		}
		im.ents[id] = ne
	}
	if !good && changed != "" {
		report(t, "C01 C03", "%s is not authorised, and yet %s", what, changed)
	}
	if (!good || refused) && err == nil {
		report(t, "C01 C03 C28", "%s is not authorised and succeeds", what)
	}
	if !good {
		return
	}
	if err == nil && len(gs) > 0 && e == nil {
		report(t, "C28 C13", "%s succeeds on an unknown entity", what)
	}
	if faulted {
		return
	}
	if !refused && e != nil && err != nil {
		report(t, "C03 C28 C05", "%s is authorised and fails with %v", what, err)
	}
	if e != nil && !sameSet(notBlank(cur), notBlank(now.ents[id].GetMeta().GetGroups())) {
		report(t, "C13 C01 C03 C28", "%s (%v): groups were %q, are %q, should be %q", what, err, e.GetMeta().GetGroups(), now.ents[id].GetMeta().GetGroups(), cur)
	}
}
