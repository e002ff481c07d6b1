package main

import (
	"fmt"
	"sort"

	"github.com/aceld/zinx/ziface"
	"github.com/aceld/zinx/zinx_app_demo/mmo_game/core"
	"github.com/aceld/zinx/zinx_app_demo/mmo_game/pb"
	"github.com/aceld/zinx/zzmc/mc"
	"github.com/golang/protobuf/proto"
)

// ---- C25: the area-of-interest grid ---------------------------------------------------------

func touch(a, b *core.GrID) bool {
	return a.MinX <= b.MaxX && b.MinX <= a.MaxX && a.MinY <= b.MaxY && b.MinY <= a.MaxY
}

// cells lists the cells of a map, found through the exported lookups only.
func cells(m *core.AOIManager) map[int]*core.GrID {
	out := map[int]*core.GrID{}
	for g := -m.CntsX - 1; g <= m.CntsX*m.CntsY+m.CntsX+1; g++ {
		ns := m.GetSurroundGrIDsByGID(g)
		for _, n := range ns {
			must(n != nil, "the neighbourhood of cell %d holds a nil cell", g)
			if n.GID == g {
				out[g] = n
			}
		}
		must(len(ns) == 0 || out[g] != nil, "the neighbourhood of cell %d does not hold the cell itself", g)
	}
	return out
}

func gids(gs []*core.GrID) (out []int) {
	for _, g := range gs {
		out = append(out, g.GID)
	}
	sort.Ints(out)
	return out
}

// aoiShape: partition and neighbourhoods of every map shape.
func aoiShape(maxC, maxW int, mins []int) func() {
	return func() {
		mc.Explore(true)
		cx, cy := 1+mc.Choose(maxC), 1+mc.Choose(maxC)
		minX, minY := mins[mc.Choose(len(mins))], mins[mc.Choose(len(mins))]
		ex := cx + mc.Choose(cx*(maxW-1)+1)
		mc.Explore(false)
		n := 0
		{
			{
				{
					for ey := cy; ey <= cy*maxW; ey++ {
						n++
						m := core.NewAOIManager(minX, minX+ex, cx, minY, minY+ey, cy)
						what := fmt.Sprintf("map [%d,%d]x[%d,%d] of %dx%d cells", minX, minX+ex, minY, minY+ey, cx, cy)
						cs := cells(m)
						eq(what+": number of cells", len(cs), cx*cy)
						for g, c := range cs {
							var want []int
							for h, d := range cs {
								if touch(c, d) {
									want = append(want, h)
								}
							}
							sort.Ints(want)
							eq(fmt.Sprintf("%s: neighbourhood of cell %d", what, g), gids(m.GetSurroundGrIDsByGID(g)), want)
						}
						// every position, also between the integers and on the border
						for hx := 0; hx <= 4*ex; hx++ {
							for hy := 0; hy <= 4*ey; hy++ {
								if ex > 3*cx && (hx%4 == 1 || hy%4 == 1) {
									continue
								}
								x, y := float32(minX)+float32(hx)/4, float32(minY)+float32(hy)/4
								g := m.GetGIDByPos(x, y)
								in := -1
								for id, c := range cs {
									ix := float32(c.MinX) <= x && (x < float32(c.MaxX) || x == float32(c.MaxX) && c.MaxX == m.MaxX)
									iy := float32(c.MinY) <= y && (y < float32(c.MaxY) || y == float32(c.MaxY) && c.MaxY == m.MaxY)
									if ix && iy {
										must(in < 0, "%s: (%v,%v) is in the cells %d and %d", what, x, y, in, id)
										in = id
									}
								}
								must(in >= 0, "%s: (%v,%v) is in no cell; the map says %d", what, x, y, g)
								if g != in {
									mc.Fail("%s: (%v,%v) is in cell %d, the map says %d", what, x, y, in, g)
								}
							}
						}
					}
				}
			}
		}
		mc.Outcome("%dx%d: %d maps", cx, cy, n)
	}
}

func ints(a []int) []int { sort.Ints(a); return a }

// aoiHist: players added, moved and removed are found exactly around their positions.
func aoiHist(cx, cy, depth, pids int) func() {
	return func() {
		m := core.NewAOIManager(-5, -5+3*cx+1, cx, 2, 2+2*cy+1, cy)
		cs := cells(m)
		n := len(cs)
		spot := func(g int) (float32, float32) { // a position in cell g, on its far border when there is one
			return float32(cs[g].MaxX) - 0.25, float32(cs[g].MinY)
		}
		at := map[[2]int]bool{} // player, cell
		check := func(op string) {
			for g := 0; g < n; g++ {
				var own, near []int
				for k := range at {
					if at[k] && k[1] == g {
						own = append(own, k[0])
					}
					if at[k] && touch(cs[k[1]], cs[g]) {
						near = append(near, k[0])
					}
				}
				eq(fmt.Sprintf("after %s: players in cell %d", op, g), ints(m.GetPIDsByGID(g)), ints(own))
				x, y := spot(g)
				eq(fmt.Sprintf("after %s: players around cell %d", op, g), ints(m.GetPIDsByPos(x, y)), ints(near))
			}
		}
		trace := ""
		check("nothing")
		for i := 0; i < depth; i++ {
			mc.Explore(true)
			k := mc.Choose(4*pids + 1)
			if k == 0 {
				break
			}
			g := mc.Choose(n)
			mc.Explore(false)
			k--
			pid := 1 + k/4
			x, y := spot(g)
			switch k % 4 {
			case 0:
				trace += fmt.Sprintf(" add %d at cell %d by position", pid, g)
				m.AddToGrIDByPos(pid, x, y)
				at[[2]int{pid, g}] = true
			case 1:
				trace += fmt.Sprintf(" add %d to cell %d", pid, g)
				m.AddPIDToGrID(pid, g)
				at[[2]int{pid, g}] = true
			case 2:
				trace += fmt.Sprintf(" remove %d at cell %d by position", pid, g)
				m.RemoveFromGrIDByPos(pid, x, y)
				delete(at, [2]int{pid, g})
			case 3:
				trace += fmt.Sprintf(" remove %d from cell %d", pid, g)
				m.RemovePIDFromGrID(pid, g)
				delete(at, [2]int{pid, g})
			}
			check(trace)
		}
		mc.Explore(false)
		mc.Outcome("%d", len(at))
	}
}

// viewer is a player's connection: it keeps what the player's client sees.
type viewer struct {
	ziface.IConnection
	pid   int32
	sees  map[int32]bool
	at    map[int32][2]float32
	talk  []string
	other int
}

func (v *viewer) SendMsg(id uint32, data []byte) error {
	switch id {
	case 1:
		m := &pb.SyncPID{}
		must(proto.Unmarshal(data, m) == nil, "message 1 does not decode")
		v.pid = m.PID
	case 200:
		m := &pb.BroadCast{}
		must(proto.Unmarshal(data, m) == nil, "message 200 does not decode")
		switch m.Tp {
		case 1:
			v.talk = append(v.talk, fmt.Sprintf("%d:%s", m.PID, m.GetContent()))
		default:
			v.sees[m.PID] = true
			v.at[m.PID] = [2]float32{m.GetP().X, m.GetP().Z}
		}
	case 201:
		m := &pb.SyncPID{}
		must(proto.Unmarshal(data, m) == nil, "message 201 does not decode")
		delete(v.sees, m.PID)
	case 202:
		m := &pb.SyncPlayers{}
		must(proto.Unmarshal(data, m) == nil, "message 202 does not decode")
		for _, p := range m.Ps {
			v.sees[p.PID] = true
			v.at[p.PID] = [2]float32{p.P.X, p.P.Z}
		}
	default:
		v.other++
	}
	return nil
}

type game struct {
	m    *core.AOIManager
	cs   map[int]*core.GrID
	ps   map[int32]*core.Player
	vs   map[int32]*viewer
	cell map[int32]int
}

func newGame(cx, cy int) *game {
	g := &game{m: core.NewAOIManager(0, 3*cx+1, cx, 0, 2*cy, cy), ps: map[int32]*core.Player{}, vs: map[int32]*viewer{}, cell: map[int32]int{}}
	core.WorldMgrObj.AoiMgr = g.m
	g.cs = cells(g.m)
	return g
}

// inside is a position that is well inside cell c.
func (g *game) inside(c int) (float32, float32) {
	return float32(g.cs[c].MaxX) - 0.5, float32(g.cs[c].MinY) + 0.5
}

func (g *game) join(pid int32, c int) {
	v := &viewer{sees: map[int32]bool{}, at: map[int32][2]float32{}}
	x, z := g.inside(c)
	p := &core.Player{PID: pid, Conn: v, X: x, Z: z}
	p.SyncPID()
	p.BroadCastStartPosition()
	core.WorldMgrObj.AddPlayer(p)
	p.SyncSurrounding()
	eq("player id at the client", v.pid, pid)
	g.ps[pid], g.vs[pid], g.cell[pid] = p, v, c
}

func (g *game) leave(pid int32) {
	g.ps[pid].LostConnection()
	delete(g.ps, pid)
	delete(g.cell, pid)
	delete(g.vs, pid)
}

func (g *game) move(pid int32, c int) {
	x, z := g.inside(c)
	g.ps[pid].UpdatePos(x, 1, z, 2)
	g.cell[pid] = c
}

// check compares what is found around every player with the positions, and what clients see.
func (g *game) check(op string, views bool) {
	var all []int
	for pid := range g.ps {
		all = append(all, int(pid))
	}
	var got []int
	for _, p := range core.WorldMgrObj.GetAllPlayers() {
		got = append(got, int(p.PID))
	}
	eq(op+": players in the world", ints(got), ints(all))
	for pid, p := range g.ps {
		must(core.WorldMgrObj.GetPlayerByPID(pid) == p, "%s: player %d is not found in the world", op, pid)
		x, z := g.inside(g.cell[pid])
		eq(op+": position of the player", [2]float32{p.X, p.Z}, [2]float32{x, z})
		var want, got, sees []int
		for q, c := range g.cell {
			if touch(g.cs[c], g.cs[g.cell[pid]]) {
				want = append(want, int(q))
			}
		}
		for _, q := range p.GetSurroundingPlayers() {
			got = append(got, int(q.PID))
		}
		eq(fmt.Sprintf("%s: players around player %d", op, pid), ints(got), ints(want))
		if views {
			for q := range g.vs[pid].sees {
				sees = append(sees, int(q))
				qx, qz := g.inside(g.cell[q])
				eq(fmt.Sprintf("%s: where the client of %d sees %d", op, pid, q), g.vs[pid].at[q], [2]float32{qx, qz})
			}
			eq(fmt.Sprintf("%s: players the client of %d sees", op, pid), ints(sees), ints(want))
		}
	}
	for c := range g.cs {
		var want, got []int
		for q, d := range g.cell {
			if d == c {
				want = append(want, int(q))
			}
		}
		for _, q := range core.WorldMgrObj.GetPlayersByGID(c) {
			got = append(got, int(q.PID))
		}
		eq(fmt.Sprintf("%s: players in cell %d", op, c), ints(got), ints(want))
	}
}

// aoiGame: all histories of joins, moves, leaves and talk.
func aoiGame(cx, cy, depth int, n int32) func() {
	return func() {
		g := newGame(cx, cy)
		trace, seen := "", int32(0)
		said := map[int32][]string{}
		for i := 0; i < depth; i++ {
			mc.Explore(true)
			// the players are interchangeable: they join for the first time in order
			pid := int32(mc.Choose(int(seen) + 2))
			if pid == 0 || pid > n {
				break
			}
			if pid > seen {
				seen = pid
			}
			if g.ps[pid] == nil {
				c := mc.Choose(len(g.cs))
				mc.Explore(false)
				trace += fmt.Sprintf(" join(%d,%d)", pid, c)
				g.join(pid, c)
				said[pid] = nil
			} else {
				k := mc.Choose(len(g.cs) + 2)
				mc.Explore(false)
				switch {
				case k < len(g.cs):
					trace += fmt.Sprintf(" move(%d,%d)", pid, k)
					g.move(pid, k)
				case k == len(g.cs):
					trace += fmt.Sprintf(" leave(%d)", pid)
					g.leave(pid)
				default:
					trace += fmt.Sprintf(" talk(%d)", pid)
					g.ps[pid].Talk(trace)
					for q := range g.ps {
						said[q] = append(said[q], fmt.Sprintf("%d:%s", pid, trace))
					}
				}
			}
			g.check("after"+trace, true)
			for q := range g.ps {
				eq("talk at player "+fmt.Sprint(q), g.vs[q].talk, said[q])
			}
		}
		mc.Explore(false)
		mc.Outcome("%d", len(g.ps))
	}
}

// aoiRace: two players act at the same time while a third one stands by.
func aoiRace(a, c string) func() {
	return func() {
		mc.Explore(false)
		g := newGame(3, 2)
		g.join(3, 1)
		act := func(pid int32, what string) (func(), func()) {
			x, z := g.inside(1)
			switch what {
			case "join":
				v := &viewer{sees: map[int32]bool{}, at: map[int32][2]float32{}}
				p := &core.Player{PID: pid, Conn: v, X: x, Z: z}
				return func() {
						p.SyncPID()
						p.BroadCastStartPosition()
						core.WorldMgrObj.AddPlayer(p)
						p.SyncSurrounding()
					}, func() {
						g.ps[pid], g.vs[pid], g.cell[pid] = p, v, 1
					}
			case "move", "back":
				from, to := 0, 5
				if what == "back" {
					from, to = 5, 0
				}
				g.join(pid, from)
				tx, tz := g.inside(to)
				p := g.ps[pid]
				return func() { p.UpdatePos(tx, 1, tz, 2) }, func() { g.cell[pid] = to }
			case "leave":
				g.join(pid, 4)
				p := g.ps[pid]
				return func() { p.LostConnection() }, func() { delete(g.ps, pid); delete(g.cell, pid); delete(g.vs, pid) }
			}
			panic(what)
		}
		f1, g1 := act(1, a)
		f2, g2 := act(2, c)
		mc.Explore(true)
		join(f1, f2)
		mc.Explore(false)
		g1()
		g2()
		g.check(a+" with "+c, false)
		mc.Outcome("done")
	}
}

// aoiNew: clients come at once; each becomes a player of its own, somewhere on the map.
func aoiNew(n int) func() {
	return func() {
		pids := map[int32]bool{}
		var fns []func()
		for i := 0; i < n; i++ {
			fns = append(fns, func() {
				for k := 0; k < 2; k++ {
					v := &viewer{sees: map[int32]bool{}, at: map[int32][2]float32{}}
					p := core.NewPlayer(v)
					must(!pids[p.PID], "two players have the id %d", p.PID)
					must(p.Conn == ziface.IConnection(v), "a player on another's connection")
					must(p.X >= float32(core.AOI_MIN_X) && p.X <= float32(core.AOI_MAX_X) && p.Z >= float32(core.AOI_MIN_Y) && p.Z <= float32(core.AOI_MAX_Y), "a player born outside the map: %v %v", p.X, p.Z)
					pids[p.PID] = true
				}
			})
		}
		join(fns...)
		mc.Outcome("%d", len(pids))
	}
}

func init() {
	add(&Scenario{Prop: "C25", Name: "aoi-new-2", Q: b(4), T: b(6), Bounds: "2 goroutines create 2 players each", Body: aoiNew(2)})
	add(&Scenario{Prop: "C25", Name: "aoi-new-3", Q: b(3), T: b(4), Bounds: "3 goroutines create 2 players each", Body: aoiNew(3)})
	add(&Scenario{Prop: "C25", Name: "aoi-shape", Q: data(), Weight: 4, Bounds: "maps of 1..4 x 1..4 cells, every width up to 3 units a cell with and without remainder, three origins, positions in steps of 1/4 border included", Body: aoiShape(4, 3, []int{0, -7, 85}), T: nil})
	add(&Scenario{Prop: "C25", Name: "aoi-shape-wide", T: data(), Weight: 9, Bounds: "maps of 1..6 x 1..6 cells, widths up to 4 units a cell", Body: aoiShape(6, 4, []int{0, -7, 85})})
	add(&Scenario{Prop: "C25", Name: "aoi-demo-map", Q: data(), Bounds: "the demo's map, positions in steps of 1", Body: aoiDemo()})
	add(&Scenario{Prop: "C25", Name: "aoi-hist-3x2", Q: data(), Weight: 3, Bounds: "histories of depth 3, 2 players, 3x2 cells", Body: aoiHist(3, 2, 3, 2)})
	add(&Scenario{Prop: "C25", Name: "aoi-hist-1x4", Q: data(), Bounds: "histories of depth 3, 2 players, 1x4 cells", Body: aoiHist(1, 4, 3, 2)})
	add(&Scenario{Prop: "C25", Name: "aoi-hist-deep", T: data(), Weight: 9, Bounds: "histories of depth 4, 2 players, 3x2 cells", Body: aoiHist(3, 2, 4, 2)})
	add(&Scenario{Prop: "C25", Name: "aoi-game-4x1", Q: data(), Weight: 3, Bounds: "histories of depth 5, 2 players, 4x1 cells", Body: aoiGame(4, 1, 5, 2)})
	add(&Scenario{Prop: "C25", Name: "aoi-game-4x3", Q: data(), Weight: 3, Bounds: "histories of depth 3, 2 players, 4x3 cells", Body: aoiGame(4, 3, 3, 2)})
	add(&Scenario{Prop: "C25", Name: "aoi-game-3p", Q: data(), Weight: 4, Bounds: "histories of depth 4, 3 players, 3x2 cells", Body: aoiGame(3, 2, 4, 3)})
	add(&Scenario{Prop: "C25", Name: "aoi-game-deep", T: data(), Weight: 9, Bounds: "histories of depth 4, 3 players, 4x3 cells", Body: aoiGame(4, 3, 4, 3)})
	acts := []string{"join", "move", "back", "leave"}
	for i, a := range acts {
		for _, c := range acts[i:] {
			add(&Scenario{Prop: "C25", Name: "aoi-race-" + a + "-" + c, Q: b(2), T: b(3), Bounds: "two players act at once, a third stands by", Body: aoiRace(a, c)})
		}
	}
}

func aoiDemo() func() {
	return func() {
		m := core.WorldMgrObj.AoiMgr
		cs := cells(m)
		mc.Explore(true)
		row := mc.Choose(64)
		mc.Explore(false)
		n := 0
		for x := m.MinX; x <= m.MaxX; x++ {
			for y := m.MinY + row; y <= m.MaxY; y += 64 {
				n++
				g := m.GetGIDByPos(float32(x), float32(y))
				c := cs[g]
				must(c != nil && c.MinX <= x && x <= c.MaxX && c.MinY <= y && y <= c.MaxY, "(%d,%d) is said to be in cell %v", x, y, c)
				m.AddToGrIDByPos(1, float32(x), float32(y))
				eq("players around", m.GetPIDsByPos(float32(x), float32(y)), []int{1})
				m.RemoveFromGrIDByPos(1, float32(x), float32(y))
				eq("players around afterwards", len(m.GetPIDsByPos(float32(x), float32(y))), 0)
			}
		}
		mc.Outcome("%d", n)
	}
}
