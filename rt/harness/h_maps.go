package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"

	"github.com/aceld/zinx/zutils"
	"github.com/aceld/zinx/zzmc/mc"
)

// ---- C14: the sharded concurrent map ---------------------------------------

// The model's state is "k=v;" sorted by key; values are small strings.
type mstate map[string]string

func mdec(s string) mstate {
	m := mstate{}
	for _, p := range strings.Split(s, ";") {
		if i := strings.IndexByte(p, '='); i >= 0 {
			m[p[:i]] = p[i+1:]
		}
	}
	return m
}
func (m mstate) enc() string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	s := ""
	for _, k := range ks {
		s += k + "=" + m[k] + ";"
	}
	return s
}
func encIface(m map[string]interface{}) string {
	x := mstate{}
	for k, v := range m {
		x[k] = fmt.Sprint(v)
	}
	return x.enc()
}

type mapOps struct {
	m zutils.ShardLockMaps
	h *hist
	// whole: multi-key operations are atomic (one shard); otherwise only each
	// key of the result is
	whole bool
	keys  []string
}

// rd is a whole-map read whose result is got.
func (x *mapOps) rd(got string) func(string) (string, bool) {
	return func(st string) (string, bool) { return st, st == got }
}

const nMapOps = 15

func (x *mapOps) op(kind int, key, val string) {
	h := x.h
	switch kind {
	case 0:
		h.do("Set "+key+val, func() func(string) (string, bool) {
			x.m.Set(key, val)
			return func(st string) (string, bool) { m := mdec(st); m[key] = val; return m.enc(), true }
		})
	case 1:
		h.do("SetNX "+key+val, func() func(string) (string, bool) {
			ok := x.m.SetNX(key, val)
			return func(st string) (string, bool) {
				m := mdec(st)
				if _, has := m[key]; has {
					return st, !ok
				}
				m[key] = val
				return m.enc(), ok
			}
		})
	case 2:
		h.do("Get "+key, func() func(string) (string, bool) {
			v, ok := x.m.Get(key)
			return func(st string) (string, bool) {
				w, has := mdec(st)[key]
				return st, has == ok && (!ok || w == fmt.Sprint(v)) && (ok || v == nil)
			}
		})
	case 3:
		h.do("Has "+key, func() func(string) (string, bool) {
			ok := x.m.Has(key)
			return func(st string) (string, bool) { _, has := mdec(st)[key]; return st, has == ok }
		})
	case 4:
		h.do("Remove "+key, func() func(string) (string, bool) {
			x.m.Remove(key)
			return func(st string) (string, bool) { m := mdec(st); delete(m, key); return m.enc(), true }
		})
	case 5:
		h.do("Pop "+key, func() func(string) (string, bool) {
			v, ok := x.m.Pop(key)
			return func(st string) (string, bool) {
				m := mdec(st)
				w, has := m[key]
				delete(m, key)
				return m.enc(), has == ok && (!ok || w == fmt.Sprint(v))
			}
		})
	case 6, 7:
		h.do(fmt.Sprintf("RemoveCb%d %s", kind, key), func() func(string) (string, bool) {
			var sv interface{}
			var se bool
			calls := 0
			r := x.m.RemoveCb(key, func(k string, v interface{}, exists bool) bool {
				calls++
				must(k == key, "RemoveCb passed key %q for %q", k, key)
				sv, se = v, exists
				return kind == 6
			})
			must(calls == 1, "RemoveCb ran its callback %d times", calls)
			must(r == (kind == 6), "RemoveCb returned %v although the callback returned %v", r, kind == 6)
			return func(st string) (string, bool) {
				m := mdec(st)
				w, has := m[key]
				if kind == 6 {
					delete(m, key)
				}
				return m.enc(), has == se && (!se || w == fmt.Sprint(sv))
			}
		})
	case 8:
		h.do("Items", func() func(string) (string, bool) { return x.rd(encIface(x.m.Items())) })
	case 9:
		h.do("Count", func() func(string) (string, bool) {
			n := x.m.Count()
			return func(st string) (string, bool) { return st, len(mdec(st)) == n }
		})
	case 10:
		h.do("Keys", func() func(string) (string, bool) {
			ks := append([]string{}, x.m.Keys()...)
			sort.Strings(ks)
			return func(st string) (string, bool) {
				var w []string
				for k := range mdec(st) {
					w = append(w, k)
				}
				sort.Strings(w)
				return st, fmt.Sprint(w) == fmt.Sprint(ks)
			}
		})
	case 11:
		h.do("IsEmpty", func() func(string) (string, bool) {
			e := x.m.IsEmpty()
			return func(st string) (string, bool) { return st, (len(mdec(st)) == 0) == e }
		})
	case 12:
		h.do("IterCb", func() func(string) (string, bool) {
			got := map[string]interface{}{}
			x.m.IterCb(func(k string, v interface{}) {
				_, dup := got[k]
				must(!dup, "IterCb visited %q twice", k)
				got[k] = v
			})
			return x.rd(encIface(got))
		})
	case 13:
		h.do("Clear", func() func(string) (string, bool) {
			x.m.Clear()
			return func(st string) (string, bool) { return "", true }
		})
	case 14:
		h.do("IterBuffered", func() func(string) (string, bool) {
			got := map[string]interface{}{}
			ch := x.m.IterBuffered()
			for {
				t, ok := ch.Recv2()
				if !ok {
					break
				}
				_, dup := got[t.Key]
				must(!dup, "IterBuffered delivered %q twice", t.Key)
				got[t.Key] = t.Val
			}
			return x.rd(encIface(got))
		})
	}
}

func mapScenario(shards, threads, nops int, kinds []int, keys int) func() {
	return func() {
		boot()
		zutils.ShardCount = shards
		x := &mapOps{m: zutils.NewShardLockMaps(), h: &hist{}, whole: shards == 1}
		ks := []string{"a", "b", "c"}
		init := ""
		mc.NoExplore(func() {
			if mc.Choose(2) == 1 {
				x.m.Set("a", "0")
				init = "a=0;"
			}
		})
		var fns []func()
		for t := 0; t < threads; t++ {
			var ops [][2]int
			for i := 0; i < nops; i++ {
				ops = append(ops, [2]int{kinds[mc.Choose(len(kinds))], mc.Choose(keys)})
			}
			t := t
			fns = append(fns, func() {
				for i, o := range ops {
					x.op(o[0], ks[o[1]], fmt.Sprintf("%c%d", 'p'+t, i))
				}
			})
		}
		join(fns...)
		x.op(8, "", "")
		must(linearizable(x.h.ops, init), "the history is not linearizable: from {%s}: %s", init, x.h)
		mc.Outcome("%s", encIface(x.m.Items()))
	}
}

// multi-shard: whole-map reads are decomposed per key.
func mapMulti() {
	boot()
	zutils.ShardCount = 2
	m := zutils.NewShardLockMaps()
	// find two keys in each shard
	ks := []string{"a", "b", "c", "d"}
	h := &hist{}
	reads := map[int]map[string]string{}
	set := func(k, v string) {
		h.do("Set "+k+v, func() func(string) (string, bool) {
			m.Set(k, v)
			return func(st string) (string, bool) { d := mdec(st); d[k] = v; return d.enc(), true }
		})
	}
	rem := func(k string) {
		h.do("Remove "+k, func() func(string) (string, bool) {
			m.Remove(k)
			return func(st string) (string, bool) { d := mdec(st); delete(d, k); return d.enc(), true }
		})
	}
	kind := mc.Choose(4)
	mset := mc.Choose(2) == 1
	join(func() {
		if mset {
			h.do("MSet", func() func(string) (string, bool) {
				m.MSet(map[string]interface{}{"a": "1", "b": "1", "c": "1", "d": "1"})
				return func(st string) (string, bool) {
					d := mdec(st)
					for _, k := range ks {
						d[k] = "1"
					}
					return d.enc(), true
				}
			})
		} else {
			set("a", "1")
			set("b", "1")
			set("c", "1")
		}
		rem("a")
	}, func() {
		got := map[string]string{}
		idx := len(h.ops)
		_ = idx
		h.do("Read", func() func(string) (string, bool) {
			switch kind {
			case 0:
				for k, v := range m.Items() {
					got[k] = fmt.Sprint(v)
				}
			case 1:
				for _, k := range m.Keys() {
					_, dup := got[k]
					must(!dup, "Keys lists %q twice", k)
					got[k] = "1"
				}
			case 2:
				m.IterCb(func(k string, v interface{}) { got[k] = fmt.Sprint(v) })
			case 3:
				b, err := json.Marshal(m)
				must(err == nil, "MarshalJSON: %v", err)
				x := map[string]interface{}{}
				must(json.Unmarshal(b, &x) == nil, "MarshalJSON produced %s", b)
				for k, v := range x {
					got[k] = fmt.Sprint(v)
				}
			}
			return nil
		})
		reads[0] = got
	})
	for _, k := range ks {
		var ops []*lop
		for _, o := range h.ops {
			o := o
			if o.name == "Read" {
				v, ok := reads[0][k]
				ops = append(ops, &lop{name: "read", call: o.call, ret: o.ret, apply: func(st string) (string, bool) {
					w, has := mdec(st)[k]
					return st, has == ok && (!ok || w == v)
				}})
			} else {
				ops = append(ops, o)
			}
		}
		must(linearizable(ops, ""), "key %q as read (%v) was never in the map at any time of the read: %s", k, reads[0], h)
	}
	// quiescent agreement of all views
	want := map[string]interface{}{"b": "1", "c": "1"}
	if mset {
		want["d"] = "1"
	}
	eq("Items at rest", encIface(m.Items()), encIface(want))
	eq("Count at rest", m.Count(), len(want))
	mc.Outcome("%d %v", kind, encIface(m.Items()))
	b, err := json.Marshal(m)
	must(err == nil, "MarshalJSON: %v", err)
	m2 := zutils.NewShardLockMaps()
	must(json.Unmarshal(b, &m2) == nil, "UnmarshalJSON of %s failed", b)
	eq("JSON round trip", encIface(m2.Items()), encIface(want))
}

// every sequence of operations, sequentially, over several shard counts: no
// operation may mix up keys.
func mapSeq(shards, depth int) func() {
	return func() {
		boot()
		zutils.ShardCount = shards
		keys := []string{"", "a", "b"}
		x := &mapOps{m: zutils.NewShardLockMaps(), h: &hist{}, whole: true}
		for i := 0; i < depth; i++ {
			k := mc.Choose(nMapOps)
			j := 0
			if k < 8 {
				j = mc.Choose(len(keys))
			}
			mc.NoExplore(func() { x.op(k, keys[j], fmt.Sprint(i)) })
		}
		st := ""
		for i, o := range x.h.ops {
			var ok bool
			st, ok = o.apply(st)
			must(ok, "sequence %s: step %d gives a result the model does not", x.h, i)
		}
		mc.NoExplore(func() { eq("contents after "+x.h.String(), encIface(x.m.Items()), st) })
		mc.Count(1)
		mc.Outcome("%s", st)
	}
}

// hashes a user may supply
type sumHash int

func (h sumHash) Sum(k string) uint32 {
	switch h {
	case 0:
		return 0
	case 1:
		return 1<<32 - 1
	case 2:
		return uint32(len(k)) << 30
	}
	n := uint32(0)
	for _, c := range []byte(k) {
		n += uint32(c)
	}
	return n
}

// mapLarge: maps of many sizes, shard counts and hash functions through every
// operation and view, an iteration left half read among them.
func mapLarge() {
	boot()
	zutils.ShardCount = []int{1, 2, 5, 32, 100}[mc.Choose(5)]
	n := []int{0, 1, 2, 7, 31, 32, 33, 64, 65, 100, 257, 1000}[mc.Choose(12)]
	hash := mc.Choose(5) - 1
	mc.Explore(false)
	what := fmt.Sprintf("a map of %d keys in %d shards, hash %d", n, zutils.ShardCount, hash)
	mk := func() zutils.ShardLockMaps {
		if hash < 0 {
			return zutils.NewShardLockMaps()
		}
		return zutils.NewWithCustomHash(sumHash(hash))
	}
	m := mk()
	want := map[string]interface{}{}
	views := func(when string) {
		when += " of " + what
		eq("Count "+when, m.Count(), len(want))
		eq("IsEmpty "+when, m.IsEmpty(), len(want) == 0)
		eq("Items "+when, encIface(m.Items()), encIface(want))
		seen := map[string]interface{}{}
		for _, k := range m.Keys() {
			_, dup := seen[k]
			must(!dup, "Keys %s lists %q twice", when, k)
			seen[k] = want[k]
		}
		eq("Keys "+when, encIface(seen), encIface(want))
		seen = map[string]interface{}{}
		m.IterCb(func(k string, v interface{}) {
			_, dup := seen[k]
			must(!dup, "IterCb %s visits %q twice", when, k)
			seen[k] = v
			w, ok := m.Get(k) // a callback may look things up
			must(ok && w == v, "Get in IterCb %s: %v", when, w)
		})
		eq("IterCb "+when, encIface(seen), encIface(want))
		seen = map[string]interface{}{}
		it := m.IterBuffered()
		for t, ok := it.Recv2(); ok; t, ok = it.Recv2() {
			_, dup := seen[t.Key]
			must(!dup, "IterBuffered %s visits %q twice", when, t.Key)
			seen[t.Key] = t.Val
		}
		eq("IterBuffered "+when, encIface(seen), encIface(want))
		b, err := json.Marshal(m)
		must(err == nil, "MarshalJSON %s: %v", when, err)
		m2 := mk()
		m2.Set("old", "kept")
		must(json.Unmarshal(b, &m2) == nil, "UnmarshalJSON %s failed", when)
		v, _ := m2.Get("old")
		eq("a key not in the JSON "+when, v, "kept")
		m2.Remove("old")
		eq("JSON round trip "+when, encIface(m2.Items()), encIface(want))
	}
	key := func(i int) string { return fmt.Sprintf("k%d", i*i) }
	views("at first")
	batch := map[string]interface{}{}
	for i := 0; i < n; i++ {
		v := fmt.Sprintf("v%d", i)
		want[key(i)] = v
		switch i % 3 {
		case 0:
			m.Set(key(i), v)
		case 1:
			must(m.SetNX(key(i), v), "SetNX of an absent key in %s", what)
			must(!m.SetNX(key(i), "other"), "SetNX of a present key in %s", what)
		default:
			batch[key(i)] = v
		}
	}
	m.MSet(batch)
	views("after the insertions")
	part := m.IterBuffered()
	half := map[string]interface{}{}
	for len(half) < n/2 {
		t := part.Recv()
		half[t.Key] = t.Val
	}
	for i := 0; i < n; i++ { // an iteration that is not read does not block the writers
		switch i % 5 {
		case 0:
			m.Remove(key(i))
			delete(want, key(i))
		case 1:
			v, ok := m.Pop(key(i))
			must(ok && v == want[key(i)], "Pop %d from %s: %v", i, what, v)
			delete(want, key(i))
		case 2:
			i := i
			rm := i%2 == 0
			got := m.RemoveCb(key(i), func(k string, v interface{}, ok bool) bool {
				must(k == key(i) && ok && v == want[k], "RemoveCb of %s got %s %v %v", what, k, v, ok)
				return rm
			})
			eq("RemoveCb", got, rm)
			if rm {
				delete(want, key(i))
			}
		case 3:
			m.Set(key(i), "new")
			want[key(i)] = "new"
		}
	}
	m.Remove("absent")
	_, ok := m.Pop("absent")
	must(!ok && !m.Has("absent"), "an absent key is found in %s", what)
	for i := 0; i < n; i++ {
		v, ok := m.Get(key(i))
		w, has := want[key(i)]
		must(ok == has && m.Has(key(i)) == has && (!has || v == w), "Get %d from %s: %v %v", i, what, v, ok)
	}
	views("after the removals")
	for t, ok := part.Recv2(); ok; t, ok = part.Recv2() {
		half[t.Key] = t.Val
	}
	eq("what an iteration visits that went on while others wrote", len(half), n)
	m.Clear()
	want = map[string]interface{}{}
	views("after Clear")
	mc.Quiesce()
	eq("goroutines left", len(threads()), 0)
	mc.Outcome("%s", what)
}

func init() {
	add(&Scenario{Prop: "C14", Name: "C14/large", Q: long(seqCfg()), Body: mapLarge, Weight: 3, Bounds: "12 sizes up to 1000 x 5 shard counts x 5 hash functions"})
	add(&Scenario{Prop: "C14", Name: "C14/lin-1shard-2x2", Q: b(2), T: b(3), Body: mapScenario(1, 2, 2, []int{0, 1, 2, 4, 5, 6, 7}, 1), Weight: 5,
		Bounds: "2 threads x 2 operations out of Set/SetNX/Get/Remove/Pop/RemoveCb on one key"})
	add(&Scenario{Prop: "C14", Name: "C14/lin-1shard-3x1", Q: b(2), T: b(4), Body: mapScenario(1, 3, 1, []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12}, 1), Weight: 5,
		Bounds: "3 threads x 1 operation out of 12 kinds on one key"})
	add(&Scenario{Prop: "C14", Name: "C14/lin-1shard-readers", Q: b(2), T: b(3), Body: mapScenario(1, 2, 1, []int{0, 5, 8, 9, 10, 11, 12, 14}, 2), Weight: 4,
		Bounds: "2 threads x 1 operation including the whole-map readers on two keys of one shard"})
	add(&Scenario{Prop: "C14", Name: "C14/multi-shard", Q: b(2), T: b(3), Body: mapMulti, Weight: 4, Bounds: "writer of 3-4 keys in 2 shards against Items/Keys/IterCb/MarshalJSON"})
	for _, n := range []int{1, 2, 32} {
		add(&Scenario{Prop: "C14", Name: fmt.Sprintf("C14/seq-%dshard", n), Q: seqCfg(), Body: mapSeq(n, 3), Bounds: "all operation sequences of length 3 over 3 keys"})
	}
}

func seqCfg() *mc.Config {
	c := data()
	c.NoRace = true
	c.MaxSteps = 100000000
	c.MaxLoops = 1000000000
	return c
}
