//go:build go1.18

package all_test

import (
	"fmt"
	"math/rand"
	"regexp"
	"strings"
	"testing"

	"github.com/golang/protobuf/proto"

	"github.com/netauth/netauth/internal/db"
	"github.com/netauth/netauth/internal/tree"

	types "github.com/netauth/protocol"
	rpc "github.com/netauth/protocol/v2"
)

// an operation under test: what it did, and what is wrong with that
type step struct {
	what   string
	ent    string // the entity it names
	grp    string // the group it names
	err    error
	old    image
	now    image
	props  string // the properties that its own effect belongs to
	mutate bool
}

var idx = regexp.MustCompile(`{\d+}`)

func fuzzy(k string) string { return idx.ReplaceAllString(k, "") }
func umKey(s string) string { k, _, _ := strings.Cut(s, ":"); return k }

func kvFind(l []*types.KVData, k string) bool {
	for _, d := range l {
		if d.GetKey() == k {
			return true
		}
	}
	return false
}

func kvHas(l []*types.KVData, d *types.KVData) bool {
	for _, x := range l {
		if proto.Equal(x, d) {
			return true
		}
	}
	return false
}

// kvDiffers compares lists of key/value entries as sets.
func kvDiffers(a, b []*types.KVData) bool {
	if len(a) != len(b) {
		return true
	}
	for _, d := range a {
		if !kvHas(b, d) {
			return true
		}
	}
	for _, d := range b {
		if !kvHas(a, d) {
			return true
		}
	}
	return false
}

// part clears one field group of an entity.
var entParts = []struct {
	name, prop string
	clear      func(e *types.Entity)
}{
	{"secret", "C08 C11", func(e *types.Entity) { e.Secret = nil }},
	{"lock", "C09 C11", func(e *types.Entity) { e.Meta.Locked = nil }},
	{"capabilities", "C12 C11", func(e *types.Entity) { e.Meta.Capabilities = nil }},
	{"groups", "C13 C11", func(e *types.Entity) { e.Meta.Groups = nil }},
	{"kv", "C14 C11", func(e *types.Entity) { e.Meta.KV = nil }},
	{"untyped", "C15 C11", func(e *types.Entity) { e.Meta.UntypedMeta = nil }},
	{"keys", "C34 C11", func(e *types.Entity) { e.Meta.Keys = nil }},
	{"number", "C11", func(e *types.Entity) { e.Number = nil }},
	{"id", "C11", func(e *types.Entity) { e.ID = nil }},
	{"typed", "C10 C11", func(e *types.Entity) {
		m := e.Meta
		m.PrimaryGroup, m.GECOS, m.LegalName, m.DisplayName, m.Home, m.Shell, m.GraphicalShell, m.BadgeNumber = nil, nil, nil, nil, nil, nil, nil, nil
	}},
}

var grpParts = []struct {
	name, prop string
	clear      func(g *types.Group)
}{
	{"capabilities", "C12 C11", func(g *types.Group) { g.Capabilities = nil }},
	{"kv", "C14 C11", func(g *types.Group) { g.KV = nil }},
	{"untyped", "C15 C11", func(g *types.Group) { g.UntypedMeta = nil }},
	{"rules", "C16 C11", func(g *types.Group) { g.Expansions = nil }},
	{"number", "C11", func(g *types.Group) { g.Number = nil }},
	{"name", "C11", func(g *types.Group) { g.Name = nil }},
	{"typed", "C10 C11", func(g *types.Group) { g.DisplayName, g.ManagedBy = nil, nil }},
}

// only keeps one part of an entity.
func onlyE(e *types.Entity, part string) *types.Entity {
	r := proto.Clone(e).(*types.Entity)
	if r.Meta == nil {
		r.Meta = &types.EntityMeta{}
	}
	for _, p := range entParts {
		if p.name != part {
			p.clear(r)
		}
	}
	return r
}
func onlyG(g *types.Group, part string) *types.Group {
	r := proto.Clone(g).(*types.Group)
	for _, p := range grpParts {
		if p.name != part {
			p.clear(r)
		}
	}
	return r
}

// frame checks that only the given part of the named record changed.
func (s *step) frame(t *testing.T, part string) {
	for _, k := range union(keysOf(s.old.ents), keysOf(s.now.ents)) {
		if k != s.ent && !entEq(s.old.ents[k], s.now.ents[k]) {
			report(t, "C11 "+s.props, "%s (err %v) changed entity %q: {%s} became {%s}", s.what, s.err, k, show(s.old.ents[k]), show(s.now.ents[k]))
		}
	}
	for _, k := range union(keysOf(s.old.grps), keysOf(s.now.grps)) {
		if k != s.grp && !grpEq(s.old.grps[k], s.now.grps[k]) {
			report(t, "C11 "+s.props, "%s (err %v) changed group %q: {%s} became {%s}", s.what, s.err, k, show(s.old.grps[k]), show(s.now.grps[k]))
		}
	}
	if o, n := s.old.ents[s.ent], s.now.ents[s.ent]; o != nil && n != nil && part != "all" {
		for _, p := range entParts {
			if p.name != part && !proto.Equal(onlyE(o, p.name), onlyE(n, p.name)) {
				ps := p.prop + " " + s.props
				if part == "typed" {
					ps += " C10"
				}
				report(t, ps, "%s (err %v) changed the %s of the entity: {%s} became {%s}", s.what, s.err, p.name, show(o), show(n))
			}
		}
	} else if s.ent != "" && part != "all" && (o == nil) != (n == nil) {
		report(t, "C11 "+s.props, "%s (err %v): the entity was {%s} and is {%s}", s.what, s.err, show(o), show(n))
	}
	if o, n := s.old.grps[s.grp], s.now.grps[s.grp]; o != nil && n != nil && part != "all" {
		for _, p := range grpParts {
			if p.name != part && !proto.Equal(onlyG(o, p.name), onlyG(n, p.name)) {
				ps := p.prop + " " + s.props
				if part == "typed" {
					ps += " C10"
				}
				report(t, ps, "%s (err %v) changed the %s of the group: {%s} became {%s}", s.what, s.err, p.name, show(o), show(n))
			}
		}
	} else if s.grp != "" && part != "all" && (o == nil) != (n == nil) {
		report(t, "C11 "+s.props, "%s (err %v): the group was {%s} and is {%s}", s.what, s.err, show(o), show(n))
	}
}

// TestTree runs sequences of operations on a manager and compares each with
// its meaning.
func TestTree(t *testing.T) {
	for seed := int64(1); seed < 40000 && !timeUp(); seed++ {
		r := rand.New(rand.NewSource(seed))
		st := randStore(r)
		m := newManager(t, st)
		hist := ""
		for i := 0; i < 6; i++ {
			st.calls, st.werr, st.writes = 0, nil, 0
			st.faulty, st.failAt, st.late = r.Intn(5) == 0, 1+r.Intn(3), r.Intn(2) == 0
			s := oneOp(t, r, m, st)
			faulted := st.faulty && st.calls >= st.failAt
			s.now = st.snap()
			st.faulty = false
			hist += s.what + "; "
			// a failed operation has stored nothing, unless it was the
			// write that failed
			if s.err != nil && st.werr == nil {
				if d := sameImage(s.old, s.now); d != "" {
					report(t, "C30 C11 "+s.props, "%s reports %v and yet %s", s.what, s.err, d)
				}
			}
			if st.werr != nil && s.err == nil {
				report(t, "C30 C28 "+s.props, "%s reports success though the store failed", s.what)
			}
			if st.werr == nil && faulted && s.err == nil {
				report(t, "C30 C28 "+s.props, "%s reports success though reading the store failed", s.what)
			}
			// unknown records
			if s.ent != "" && s.old.ents[s.ent] == nil && s.err == nil && !strings.HasPrefix(s.what, "CreateEntity") && !strings.HasPrefix(s.what, "Bootstrap") {
				report(t, "C28 "+s.props, "%s on an unknown entity reports success", s.what)
			}
			if s.grp != "" && s.old.grps[s.grp] == nil && s.err == nil && !strings.HasPrefix(s.what, "CreateGroup") && !strings.HasPrefix(s.what, "ListMembers") {
				report(t, "C28 "+s.props, "%s on an unknown group reports success", s.what)
			}
			if s.err == db.ErrUnknownEntity && s.ent != "" && s.old.ents[s.ent] != nil {
				report(t, "C28", "%s reports an unknown entity for a stored one", s.what)
			}
			members(t, m, st, hist)
		}
	}
}

// members compares what the resolver reports with the meaning of the rules.
func members(t *testing.T, m *tree.Manager, st *store, hist string) {
	im := st.snap()
	for _, g := range grpIDs {
		l, err := m.ListMembers(g)
		if err != nil {
			report(t, "C22 C28", "after %s: ListMembers(%q) fails: %v", hist, g, err)
			continue
		}
		got := map[string]int{}
		for _, e := range l {
			got[e.GetID()]++
			if e.GetSecret() != "" && e.GetSecret() != "<REDACTED>" {
				report(t, "C07", "ListMembers(%q) shows the secret of %q: %q", g, e.GetID(), e.GetSecret())
			}
			w := proto.Clone(im.ents[e.GetID()]).(*types.Entity)
			v := proto.Clone(e).(*types.Entity)
			w.Secret, v.Secret = nil, nil
			if !entEq(w, v) {
				report(t, "C07 C28", "ListMembers(%q) returns {%s} for {%s}", g, show(v), show(w))
			}
		}
		for _, e := range entIDs {
			want := isMember(im, e, g, 10)
			if want != (got[e] > 0) {
				report(t, "C22", "after %s: %q is a member of %q by the rules: %v, reported: %v; entities %s; groups %s", hist, e, g, want, got[e] > 0, dumpE(im), dumpG(im))
			}
		}
	}
	for _, id := range entIDs {
		if im.ents[id] == nil {
			continue
		}
		gs := m.GetMemberships(im.ents[id])
		for _, g := range grpIDs {
			if isMember(im, id, g, 10) != inList(g, gs) {
				report(t, "C22", "after %s: groups reported for %q: %v; by the rules, member of %q: %v; groups %s", hist, id, gs, g, !inList(g, gs), dumpG(im))
			}
		}
	}
}

func dumpE(im image) string {
	s := ""
	for _, k := range keysOf(im.ents) {
		s += fmt.Sprintf("%s in %q ", k, im.ents[k].GetMeta().GetGroups())
	}
	return s
}
func dumpG(im image) string {
	s := ""
	for _, k := range keysOf(im.grps) {
		s += fmt.Sprintf("%s rules %q ", k, im.grps[k].GetExpansions())
	}
	return s
}

func oneOp(t *testing.T, r *rand.Rand, m *tree.Manager, st *store) *step {
	s := &step{old: st.snap()}
	id, gid := pick(r, entIDs), pick(r, grpIDs)
	switch r.Intn(24) {
	case 0:
		n, sec := pick(r, numbers), pick(r, secrets)
		s.what, s.ent, s.props = fmt.Sprintf("CreateEntity(%q, %d, %q)", id, n, sec), id, "C17"
		guard(t, &s.what, st, func() { s.err = m.CreateEntity(id, n, sec) })
		s.now = st.snap()
		s.frame(t, "all")
		o, e := s.old.ents[id], s.now.ents[id]
		if o != nil && (s.err == nil || !entEq(o, e)) {
			report(t, "C17 C11", "%s: err %v, entity was {%s}, is {%s}", s.what, s.err, show(o), show(e))
		}
		if o == nil && e != nil {
			if !verifies(sec, e.GetSecret()) {
				report(t, "C08", "%s stored the secret %q", s.what, e.GetSecret())
			}
			if n != -1 && e.GetNumber() != n {
				report(t, "C18", "%s stored the number %d", s.what, e.GetNumber())
			}
			for _, x := range s.old.ents {
				if n == -1 && (e.GetNumber() < 1 || x.GetNumber() >= e.GetNumber()) {
					report(t, "C18", "%s stored the number %d, %q has %d", s.what, e.GetNumber(), x.GetID(), x.GetNumber())
				}
			}
			f := proto.Clone(e).(*types.Entity)
			f.Secret, f.Number, f.ID = nil, nil, nil
			if !entEq(f, &types.Entity{}) {
				report(t, "C11 C09 C12", "%s stored {%s}", s.what, show(e))
			}
		}
		if s.err == nil && (o != nil || e == nil) {
			report(t, "C28 C17", "%s reports success, entity was {%s}, is {%s}", s.what, show(o), show(e))
		}
		if s.err == tree.ErrDuplicateEntityID && o == nil {
			report(t, "C28", "%s reports a duplicate", s.what)
		}
	case 1:
		s.what, s.ent, s.props = fmt.Sprintf("DestroyEntity(%q)", id), id, "C28"
		guard(t, &s.what, st, func() { s.err = m.DestroyEntity(id) })
		s.now = st.snap()
		s.frame(t, "all")
		if s.err == nil && s.now.ents[id] != nil {
			report(t, "C28 C11", "%s reports success, the entity is still there", s.what)
		}
	case 2:
		lock := r.Intn(2) == 0
		s.what, s.ent, s.props = fmt.Sprintf("LockEntity(%q) [%v]", id, lock), id, "C09"
		guard(t, &s.what, st, func() {
			if lock {
				s.err = m.LockEntity(id)
			} else {
				s.err = m.UnlockEntity(id)
			}
		})
		s.now = st.snap()
		s.frame(t, "lock")
		if e := s.now.ents[id]; s.err == nil && e.GetMeta().GetLocked() != lock {
			report(t, "C09 C28", "%s: the entity is {%s}", s.what, show(e))
		}
	case 3:
		sec := pick(r, secrets)
		s.what, s.ent, s.props = fmt.Sprintf("SetSecret(%q, %q)", id, sec), id, "C08"
		guard(t, &s.what, st, func() { s.err = m.SetSecret(id, sec) })
		s.now = st.snap()
		s.frame(t, "secret")
		if e := s.now.ents[id]; e != nil && (s.err == nil || e.GetSecret() != s.old.ents[id].GetSecret()) && !verifies(sec, e.GetSecret()) {
			report(t, "C08", "%s (err %v): the stored secret is %q", s.what, s.err, e.GetSecret())
		}
	case 4:
		sec := pick(r, secrets)
		if e := st.ents[id]; e != nil && r.Intn(5) == 0 {
			sec = e.GetSecret() // what is stored is no secret
		}
		s.what, s.ent, s.props = fmt.Sprintf("ValidateSecret(%q, %q)", id, sec), id, "C08 C09"
		guard(t, &s.what, st, func() { s.err = m.ValidateSecret(id, sec) })
		s.now = st.snap()
		s.frame(t, "none")
		if e := s.old.ents[id]; s.err == nil && (!verifies(sec, e.GetSecret()) || e.GetMeta().GetLocked()) {
			report(t, "C08 C09 C04 C28", "%s succeeds for {%s}", s.what, show(e))
			if e.GetMeta().GetLocked() {
				report(t, "C09", "%s succeeds for {%s}", s.what, show(e))
			}
		}
	case 5:
		u := randMeta(r)
		s.what, s.ent, s.props = fmt.Sprintf("UpdateEntityMeta(%q, {%s})", id, show(u)), id, "C10"
		v := proto.Clone(u).(*types.EntityMeta)
		guard(t, &s.what, st, func() { s.err = m.UpdateEntityMeta(id, u) })
		s.now = st.snap()
		s.frame(t, "typed")
		if s.err == nil && s.now.ents[id] != nil {
			want := onlyE(s.old.ents[id], "typed")
			for _, p := range entParts {
				if p.name != "typed" {
					p.clear(&types.Entity{Meta: v})
				}
			}
			proto.Merge(want.Meta, v)
			if got := onlyE(s.now.ents[id], "typed"); !proto.Equal(got, want) {
				report(t, "C10 C28", "%s: typed metadata is {%s}, should be {%s}", s.what, show(got), show(want))
			}
		}
	case 6, 7:
		mode, kt, k := pick(r, []string{"ADD", "DEL", "DROP", "add", "LIST"}), pick(r, keyTy), pick(r, keyVal)
		s.what, s.ent, s.props = fmt.Sprintf("UpdateEntityKeys(%q, %q, %q, %q)", id, mode, kt, k), id, "C34"
		var res []string
		guard(t, &s.what, st, func() { res, s.err = m.UpdateEntityKeys(id, mode, kt, k) })
		s.now = st.snap()
		part := "keys"
		if mode == "LIST" {
			part = "none"
		}
		s.frame(t, part)
		if s.err == nil && s.now.ents[id] != nil {
			ok, nk := s.old.ents[id].GetMeta().GetKeys(), s.now.ents[id].GetMeta().GetKeys()
			full := strings.ToUpper(kt) + ":" + k
			var want []string
			switch strings.ToUpper(mode) {
			case "ADD":
				want = append(append(want, ok...), full)
			case "DEL", "DROP":
				for _, x := range ok {
					if x != full && !(k == "" && strings.HasPrefix(x, full)) {
						want = append(want, x)
					}
				}
			default:
				if strings.Join(res, "|") != strings.Join(ok, "|") {
					report(t, "C34 C28", "%s lists %q, stored %q", s.what, res, ok)
				}
				want = ok
			}
			if part == "keys" && (!sameSet(notBlank(nk), notBlank(want)) || k != "" && !noDup(nk)) {
				report(t, "C34", "%s: keys were %q, are %q", s.what, ok, nk)
			}
		}
	case 8, 9:
		mode, k, v := pick(r, []string{"UPSERT", "CLEARFUZZY", "CLEAREXACT", "READ"}), pick(r, append(umKeys, "*")), pick(r, umVals)
		onE := r.Intn(2) == 0
		var res []string
		if onE {
			s.what, s.ent = fmt.Sprintf("ManageUntypedEntityMeta(%q, %q, %q, %q)", id, mode, k, v), id
		} else {
			s.what, s.grp = fmt.Sprintf("ManageUntypedGroupMeta(%q, %q, %q, %q)", gid, mode, k, v), gid
		}
		s.props = "C15"
		guard(t, &s.what, st, func() {
			if onE {
				res, s.err = m.ManageUntypedEntityMeta(id, mode, k, v)
			} else {
				res, s.err = m.ManageUntypedGroupMeta(gid, mode, k, v)
			}
		})
		s.now = st.snap()
		part := "untyped"
		if mode == "READ" {
			part = "none"
		}
		s.frame(t, part)
		if s.err == nil {
			o, n := s.old.ents[id].GetMeta().GetUntypedMeta(), s.now.ents[id].GetMeta().GetUntypedMeta()
			if !onE {
				o, n = s.old.grps[gid].GetUntypedMeta(), s.now.grps[gid].GetUntypedMeta()
			}
			var want []string
			for _, x := range o {
				drop := mode != "READ" && umKey(x) == k
				if mode == "CLEARFUZZY" {
					drop = fuzzy(umKey(x)) == fuzzy(k)
				}
				if mode == "READ" {
					drop = k != "*" && fuzzy(umKey(x)) != fuzzy(k)
				}
				if !drop {
					want = append(want, x)
				}
			}
			if mode == "UPSERT" {
				want = append(want, k+":"+v)
			}
			if mode == "READ" {
				if !sameSet(res, want) {
					report(t, "C15 C28", "%s returns %q of %q", s.what, res, o)
				}
			} else if !sameSet(notBlank(n), notBlank(want)) || !noDup(n) {
				report(t, "C15", "%s: entries were %q, are %q, should be %q", s.what, o, n, want)
			}
		}
	case 10, 11, 12:
		k := pick(r, kvKeys)
		d := []*types.KVData{kvEntry(r, k)}
		onE := r.Intn(2) == 0
		kind := r.Intn(4)
		name := []string{"KVAdd", "KVDel", "KVReplace", "KVGet"}[kind]
		if onE {
			s.what, s.ent = fmt.Sprintf("Entity%s(%q, %v)", name, id, d), id
		} else {
			s.what, s.grp = fmt.Sprintf("Group%s(%q, %v)", name, gid, d), gid
		}
		s.props = "C14"
		var res []*types.KVData
		guard(t, &s.what, st, func() {
			switch {
			case onE && kind == 0:
				s.err = m.EntityKVAdd(id, d)
			case onE && kind == 1:
				s.err = m.EntityKVDel(id, d)
			case onE && kind == 2:
				s.err = m.EntityKVReplace(id, d)
			case onE:
				res, s.err = m.EntityKVGet(id, d)
			case kind == 0:
				s.err = m.GroupKVAdd(gid, d)
			case kind == 1:
				s.err = m.GroupKVDel(gid, d)
			case kind == 2:
				s.err = m.GroupKVReplace(gid, d)
			default:
				res, s.err = m.GroupKVGet(gid, d)
			}
		})
		s.now = st.snap()
		part := "kv"
		if kind == 3 {
			part = "none"
		}
		s.frame(t, part)
		o, n := s.old.ents[id].GetMeta().GetKV(), s.now.ents[id].GetMeta().GetKV()
		if !onE {
			o, n = s.old.grps[gid].GetKV(), s.now.grps[gid].GetKV()
		}
		has := kvFind(o, k)
		exists := onE && s.old.ents[id] != nil || !onE && s.old.grps[gid] != nil
		clean := !(st.faulty && st.calls >= st.failAt)
		var want []*types.KVData
		for _, x := range o {
			if kind == 3 && (k == "*" || x.GetKey() == k) || (kind == 1 || kind == 2) && x.GetKey() != k || kind == 0 {
				want = append(want, x)
			}
		}
		if kind == 0 || kind == 2 {
			want = append(want, d[0])
		}
		switch {
		case !exists || !clean:
		case kind == 0 && has != (s.err != nil):
			report(t, "C14 C28", "%s: err %v, entries were %v", s.what, s.err, o)
		case (kind == 1 || kind == 2) && has != (s.err == nil):
			report(t, "C14 C28", "%s: err %v, entries were %v", s.what, s.err, o)
		case kind == 3 && k != "*" && has != (s.err == nil):
			report(t, "C14 C28", "%s: err %v, entries were %v", s.what, s.err, o)
		}
		if s.err == nil && kind == 3 && kvDiffers(res, want) {
			report(t, "C14 C28", "%s returns %v of %v", s.what, res, o)
		}
		if s.err == nil && kind != 3 && kvDiffers(n, want) {
			report(t, "C14", "%s: entries were %v, are %v, should be %v", s.what, o, n, want)
		}
	case 13, 14:
		onE, add := r.Intn(2) == 0, r.Intn(2) == 0
		c := pick(r, capNs)
		cp := &c
		if r.Intn(8) == 0 {
			cp = nil
		}
		s.props = "C12"
		if onE {
			s.what, s.ent = fmt.Sprintf("entity capability(%q, %v, add=%v)", id, cp, add), id
		} else {
			s.what, s.grp = fmt.Sprintf("group capability(%q, %v, add=%v)", gid, cp, add), gid
		}
		if cp != nil {
			s.what += " " + c.String()
		}
		old := r.Intn(3) == 0 && cp != nil
		guard(t, &s.what, st, func() {
			switch {
			case old && onE && add:
				s.err = m.SetEntityCapability(id, c.String())
			case old && onE:
				s.err = m.DropEntityCapability(id, c.String())
			case old && add:
				s.err = m.SetGroupCapability(gid, c.String())
			case old:
				s.err = m.DropGroupCapability(gid, c.String())
			case onE && add:
				s.err = m.SetEntityCapability2(id, cp)
			case onE:
				s.err = m.DropEntityCapability2(id, cp)
			case add:
				s.err = m.SetGroupCapability2(gid, cp)
			default:
				s.err = m.DropGroupCapability2(gid, cp)
			}
		})
		s.now = st.snap()
		s.frame(t, "capabilities")
		if cp == nil && s.err == nil {
			report(t, "C12", "%s succeeds without a capability", s.what)
		}
		if s.err == nil && cp != nil {
			o, n := s.old.ents[id].GetMeta().GetCapabilities(), s.now.ents[id].GetMeta().GetCapabilities()
			if !onE {
				o, n = s.old.grps[gid].GetCapabilities(), s.now.grps[gid].GetCapabilities()
			}
			var want []types.Capability
			for _, x := range o {
				if add || x != c {
					want = append(want, x)
				}
			}
			if add {
				want = append(want, c)
			}
			if !sameSet(n, want) {
				report(t, "C12", "%s: capabilities were %v, are %v", s.what, o, n)
			}
		}
	case 15, 16:
		add := r.Intn(2) == 0
		g := pick(r, append(grpIDs, "g", "g100"))
		s.what, s.ent, s.props = fmt.Sprintf("direct group(%q, %q, add=%v)", id, g, add), id, "C13"
		guard(t, &s.what, st, func() {
			if add {
				s.err = m.AddEntityToGroup(id, g)
			} else {
				s.err = m.RemoveEntityFromGroup(id, g)
			}
		})
		s.now = st.snap()
		s.frame(t, "groups")
		if s.err == nil {
			o, n := s.old.ents[id].GetMeta().GetGroups(), s.now.ents[id].GetMeta().GetGroups()
			var want []string
			for _, x := range o {
				if x != g {
					want = append(want, x)
				}
			}
			if add {
				want = append(want, g)
			}
			if !sameSet(notBlank(n), notBlank(want)) || !noDup(n) {
				report(t, "C13", "%s: groups were %q, are %q", s.what, o, n)
			}
		}
	case 17:
		n, dn, mb := pick(r, numbers), pick(r, strs), pick(r, append(grpIDs, "", "nosuch"))
		s.what, s.grp, s.props = fmt.Sprintf("CreateGroup(%q, %q, %q, %d)", gid, dn, mb, n), gid, "C17"
		guard(t, &s.what, st, func() { s.err = m.CreateGroup(gid, dn, mb, n) })
		s.now = st.snap()
		s.frame(t, "all")
		o, g := s.old.grps[gid], s.now.grps[gid]
		if o != nil && (s.err == nil || !grpEq(o, g)) {
			report(t, "C17 C11", "%s: err %v, group was {%s}, is {%s}", s.what, s.err, show(o), show(g))
		}
		if o == nil && g != nil {
			if n != -1 && g.GetNumber() != n {
				report(t, "C18", "%s stored the number %d", s.what, g.GetNumber())
			}
			for _, x := range s.old.grps {
				if n == -1 && (g.GetNumber() < 1 || x.GetNumber() >= g.GetNumber()) {
					report(t, "C18", "%s stored the number %d, %q has %d", s.what, g.GetNumber(), x.GetName(), x.GetNumber())
				}
			}
			if g.GetDisplayName() != dn || g.GetManagedBy() != mb || len(g.Capabilities)+len(g.Expansions)+len(g.KV)+len(g.UntypedMeta) > 0 {
				report(t, "C28 C11", "%s stored {%s}", s.what, show(g))
			}
			if mb != "" && mb != gid && s.old.grps[mb] == nil {
				report(t, "C03 C28", "%s accepted a managing group that does not exist", s.what)
			}
		}
		if s.err == nil && (o != nil || g == nil) {
			report(t, "C28 C17", "%s reports success, group was {%s}, is {%s}", s.what, show(o), show(g))
		}
	case 18:
		s.what, s.grp, s.props = fmt.Sprintf("DestroyGroup(%q)", gid), gid, "C28"
		guard(t, &s.what, st, func() { s.err = m.DestroyGroup(gid) })
		s.now = st.snap()
		s.frame(t, "all")
		if s.err == nil && s.now.grps[gid] != nil {
			report(t, "C28 C11", "%s reports success, the group is still there", s.what)
		}
	case 19:
		u := randGroup(r, pick(r, grpIDs), 9)
		u.Expansions = some(r, []string{"INCLUDE:g1", "EXCLUDE:g2"}, 1)
		if r.Intn(2) == 0 {
			u.Name, u.Number = nil, nil
		}
		s.what, s.grp, s.props = fmt.Sprintf("UpdateGroupMeta(%q, {%s})", gid, show(u)), gid, "C10"
		v := proto.Clone(u).(*types.Group)
		guard(t, &s.what, st, func() { s.err = m.UpdateGroupMeta(gid, u) })
		s.now = st.snap()
		s.frame(t, "typed")
		if s.err == nil && s.now.grps[gid] != nil {
			want := onlyG(s.old.grps[gid], "typed")
			proto.Merge(want, onlyG(v, "typed"))
			if got := onlyG(s.now.grps[gid], "typed"); !proto.Equal(got, want) {
				report(t, "C10 C28", "%s: {%s}, should be {%s}", s.what, show(got), show(want))
			}
		}
	case 20, 21, 22:
		child := pick(r, append(grpIDs, "nosuch"))
		mode := pick(r, []rpc.RuleAction{rpc.RuleAction_INCLUDE, rpc.RuleAction_EXCLUDE, rpc.RuleAction_REMOVE_RULE})
		s.what, s.grp, s.props = fmt.Sprintf("ModifyGroupRule(%q, %q, %v)", gid, child, mode), gid, "C16"
		guard(t, &s.what, st, func() { s.err = m.ModifyGroupRule(gid, child, mode) })
		s.now = st.snap()
		s.frame(t, "rules")
		if s.err == nil {
			o, n := s.old.grps[gid].GetExpansions(), s.now.grps[gid].GetExpansions()
			var want []string
			for _, x := range o {
				if mode != rpc.RuleAction_REMOVE_RULE || x[8:] != child {
					want = append(want, x)
				}
			}
			if mode == rpc.RuleAction_INCLUDE {
				want = append(want, "INCLUDE:"+child)
			}
			if mode == rpc.RuleAction_EXCLUDE {
				want = append(want, "EXCLUDE:"+child)
			}
			if !sameSet(n, want) || !noDup(n) {
				report(t, "C16 C28", "%s: rules were %q, are %q", s.what, o, n)
			}
			if mode != rpc.RuleAction_REMOVE_RULE {
				for _, x := range o {
					if x[8:] == child {
						report(t, "C16", "%s accepted though the rules were %q", s.what, o)
					}
				}
				if s.old.grps[child] == nil {
					report(t, "C16 C28", "%s accepted though there is no such target", s.what)
				}
				if cyclic(s.now) {
					report(t, "C16 C23", "%s accepted a cycle: %s", s.what, dumpG(s.now))
				}
			}
		}
	case 23:
		sec := pick(r, secrets)
		disabled := r.Intn(2) == 0
		s.what, s.ent, s.props = fmt.Sprintf("Bootstrap(%q, %q) disabled=%v", id, sec, disabled), id, "C19"
		guard(t, &s.what, st, func() {
			if disabled {
				m.DisableBootstrap()
			}
			m.Bootstrap(id, sec)
		})
		s.now = st.snap()
		f := *s
		f.frame(t, "all")
		if d := sameImage(s.old, s.now); disabled && d != "" {
			report(t, "C19", "%s: %s", s.what, d)
		} else if d != "" {
			e := s.now.ents[id]
			if e.GetMeta().GetLocked() || !inList(types.Capability_GLOBAL_ROOT, e.GetMeta().GetCapabilities()) || !verifies(sec, e.GetSecret()) {
				report(t, "C19 C08", "%s: entity {%s}", s.what, show(e))
			}
			if o := s.old.ents[id]; o != nil {
				for _, p := range entParts {
					if p.name != "secret" && p.name != "lock" && p.name != "capabilities" && !proto.Equal(onlyE(o, p.name), onlyE(e, p.name)) {
						report(t, "C19 C11", "%s changed the %s: {%s} became {%s}", s.what, p.name, show(o), show(e))
					}
				}
			}
		}
		again := st.snap()
		m.Bootstrap(pick(r, entIDs), "again")
		if d := sameImage(again, st.snap()); d != "" {
			report(t, "C19", "%s, and then once more: %s", s.what, d)
		}
		s.ent = ""
		s.old = s.now // nothing to report for a failure
		st.werr = nil
		st.faulty = false
	}
	// what is fetched
	id = pick(r, entIDs)
	st.faulty = false
	before := st.snap()
	e, err := m.FetchEntity(id)
	if d := sameImage(before, st.snap()); d != "" {
		report(t, "C07 C11", "FetchEntity(%q): %s", id, d)
	}
	if x := before.ents[id]; x == nil && err != db.ErrUnknownEntity || x != nil && err != nil {
		report(t, "C28", "FetchEntity(%q): err %v, stored {%s}", id, err, show(x))
	} else if x != nil {
		if e.GetSecret() != "" && e.GetSecret() != "<REDACTED>" {
			report(t, "C07", "FetchEntity(%q) returns the secret %q", id, e.GetSecret())
		}
		a, b := proto.Clone(x).(*types.Entity), proto.Clone(e).(*types.Entity)
		a.Secret, b.Secret = nil, nil
		if !entEq(a, b) {
			report(t, "C07 C28", "FetchEntity(%q) returns {%s} for {%s}", id, show(b), show(a))
		}
	}
	if l, err := m.SearchEntities(db.SearchRequest{Expression: "*"}); err == nil {
		for _, e := range l {
			if e.GetSecret() != "" && e.GetSecret() != "<REDACTED>" {
				report(t, "C07", "SearchEntities returns the secret of %q: %q", e.GetID(), e.GetSecret())
			}
		}
		if len(l) != len(before.ents) {
			report(t, "C07 C25 C28", "SearchEntities returns %d of %d entities", len(l), len(before.ents))
		}
	}
	g, err := m.FetchGroup(gid)
	if x := before.grps[gid]; x == nil && err != db.ErrUnknownGroup || x != nil && (err != nil || !proto.Equal(g, x)) {
		report(t, "C28", "FetchGroup(%q): {%s}, err %v, stored {%s}", gid, show(g), err, show(x))
	}
	return s
}

func cyclic(im image) bool {
	state := map[string]int{}
	var visit func(g string) bool
	visit = func(g string) bool {
		switch state[g] {
		case 1:
			return true
		case 2:
			return false
		}
		state[g] = 1
		for _, x := range im.grps[g].GetExpansions() {
			if visit(x[8:]) {
				return true
			}
		}
		state[g] = 2
		return false
	}
	for g := range im.grps {
		if visit(g) {
			return true
		}
	}
	return false
}
