H = '''
package interface_test

import (
	"testing"
	"sort"
	"fmt"

	"github.com/golang/protobuf/proto"

	pb "github.com/netauth/protocol"
)

var _ = sort.Strings
var _ = fmt.Sprint
var _ = proto.String
var _ = pb.Capability_GLOBAL_ROOT

func TestVerifDemo(t *testing.T) {
	m, ctx := newTreeManager(t)
	addEntity(t, ctx)
	addGroup(t, ctx)
	_ = m
'''
PK = "internal/tree/interface_test"
def T(body): return H + body + "\n}\n"
SEEDS = [
 dict(id="cap-add-prefix", property="C12", pkg=PK,
  edits=[("internal/tree/hooks/helpers.go", "		if a == cap {\n			return caps\n		}\n		ncaps = append(ncaps, a)", "		if a == cap {\n			return append(ncaps, a)\n		}\n		ncaps = append(ncaps, a)")],
  needs="granting a capability that is already held and is not the last one in the list", breaks="capabilities after the one granted again are lost",
  test=T('''
	for _, c := range []string{"LOCK_ENTITY", "UNLOCK_ENTITY", "CREATE_GROUP"} {
		if err := m.SetGroupCapability("group1", c); err != nil {
			t.Fatal(err)
		}
	}
	if err := m.SetGroupCapability("group1", "LOCK_ENTITY"); err != nil {
		t.Fatal(err)
	}
	g, err := ctx.DB.LoadGroup("group1")
	if err != nil {
		t.Fatal(err)
	}
	if len(g.GetCapabilities()) != 3 {
		t.Error("capabilities lost", g.GetCapabilities())
	}
''')),
 dict(id="dedup-blank-break", property="C13", pkg=PK,
  edits=[("internal/tree/util/util.go", "		if len(s) == 0 {\n			continue\n		}", "		if len(s) == 0 {\n			break\n		}")],
  needs="a stored group list containing a blank entry before other groups", breaks="direct groups listed after a blank entry disappear when an unrelated group is added",
  test=T('''
	e := &pb.Entity{ID: proto.String("e2"), Number: proto.Int32(2), Meta: &pb.EntityMeta{Groups: []string{"", "a", "b"}}}
	if err := ctx.DB.SaveEntity(e); err != nil {
		t.Fatal(err)
	}
	if err := m.AddEntityToGroup("e2", "c"); err != nil {
		t.Fatal(err)
	}
	l, err := ctx.DB.LoadEntity("e2")
	if err != nil {
		t.Fatal(err)
	}
	g := l.GetMeta().GetGroups()
	sort.Strings(g)
	if fmt.Sprint(g) != "[a b c]" {
		t.Error("groups are", g)
	}
''')),
 dict(id="kv-del-first", property="C14", pkg=PK,
  edits=[("internal/tree/hooks/entity-kv.go", "	if len(out) == len(e.GetMeta().GetKV()) {", "	if len(out) == len(e.GetMeta().GetKV()) && len(out) < 2 {")],
  needs="deleting a missing key from an entity that has two or more entries", breaks="deleting a key that does not exist reports success",
  test=T('''
	d := func(k, v string) []*pb.KVData {
		return []*pb.KVData{{Key: proto.String(k), Values: []*pb.KVValue{{Value: proto.String(v)}}}}
	}
	if err := m.EntityKVAdd("entity1", d("a", "1")); err != nil {
		t.Fatal(err)
	}
	if err := m.EntityKVAdd("entity1", d("c", "1")); err != nil {
		t.Fatal(err)
	}
	if err := m.EntityKVDel("entity1", d("b", "")); err == nil {
		t.Error("deleted a key that is not there")
	}
''')),
 dict(id="kv-replace-order", property="C14", pkg=PK,
  edits=[("internal/tree/hooks/group-kv.go", "		if k.GetKey() == compare {\n			continue\n		}\n		out", "		if k.GetKey() == compare || len(k.GetValues()) == 0 {\n			continue\n		}\n		out")],
  needs="a group with a key that has no values, and a replace or delete of another key", breaks="a key stored with an empty value list is lost when another key is edited",
  test=T('''
	d := func(k string, v ...string) []*pb.KVData {
		x := &pb.KVData{Key: proto.String(k)}
		for i := range v {
			x.Values = append(x.Values, &pb.KVValue{Value: proto.String(v[i])})
		}
		return []*pb.KVData{x}
	}
	if err := m.GroupKVAdd("group1", d("empty")); err != nil {
		t.Fatal(err)
	}
	if err := m.GroupKVAdd("group1", d("b", "1")); err != nil {
		t.Fatal(err)
	}
	if err := m.GroupKVReplace("group1", d("b", "2")); err != nil {
		t.Fatal(err)
	}
	if _, err := m.GroupKVGet("group1", d("empty")); err != nil {
		t.Error("key lost:", err)
	}
''')),
 dict(id="um-upsert-once", property="C15", pkg=PK,
  edits=[("internal/tree/util/util.go", "			if parts[0] == key {\n				newSlice = append(newSlice, fmt.Sprintf(\"%s:%s\", key, value))\n				inserted = true", "			if parts[0] == key && !inserted {\n				newSlice = append(newSlice, fmt.Sprintf(\"%s:%s\", key, value))\n				inserted = true")],
  needs="two stored entries with the same key (legacy data), then an upsert of that key", breaks="an upsert leaves an old entry with the key",
  test=T('''
	e := &pb.Entity{ID: proto.String("e2"), Number: proto.Int32(2), Meta: &pb.EntityMeta{UntypedMeta: []string{"k:1", "k:2"}}}
	if err := ctx.DB.SaveEntity(e); err != nil {
		t.Fatal(err)
	}
	if _, err := m.ManageUntypedEntityMeta("e2", "UPSERT", "k", "3"); err != nil {
		t.Fatal(err)
	}
	l, err := m.ManageUntypedEntityMeta("e2", "READ", "k", "")
	if err != nil || fmt.Sprint(l) != "[k:3]" {
		t.Error(l, err)
	}
''')),
]
SEEDS = [s for s in SEEDS if s["test"]]
