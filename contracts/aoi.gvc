# Area of interest: a rectangular map cut into CntsX x CntsY cells, cell g at column g mod CntsX, row g div CntsX.
type zinx_app_demo/mmo_game/core.GrID
  lock pIDLock guards playerIDs
def small(a) = -2**31 <= a <= 2**31
def wx(m) = gdiv(m.MaxX - m.MinX, m.CntsX)
def wy(m) = gdiv(m.MaxY - m.MinY, m.CntsY)
def dims(m) = m != nil and small(m.MinX) and small(m.MaxX) and small(m.MinY) and small(m.MaxY) and 0 < m.CntsX < 2**15 and 0 < m.CntsY < 2**15 and m.MaxX - m.MinX >= m.CntsX and m.MaxY - m.MinY >= m.CntsY
def col(m, g) = gmod(g, m.CntsX)
def row(m, g) = gdiv(g, m.CntsX)
def cellok(m, g) = m.grIDs[g] != nil and m.grIDs[g].playerIDs != nil and m.grIDs[g].GID == g and m.grIDs[g].MinX == m.MinX + col(m, g) * wx(m) and m.grIDs[g].MaxX == m.MinX + (col(m, g) + 1) * wx(m) and m.grIDs[g].MinY == m.MinY + row(m, g) * wy(m) and m.grIDs[g].MaxY == m.MinY + (row(m, g) + 1) * wy(m)
def cells(m, n) = m.grIDs != nil and forall(lambda g: iff(g in m.grIDs, 0 <= g < n)) and forall(lambda g: implies(g in m.grIDs, cellok(m, g)))
def apart(m) = forall(lambda g, h: implies(g in m.grIDs and h in m.grIDs and g != h, m.grIDs[g] != m.grIDs[h] and ref(m.grIDs[g].playerIDs) != ref(m.grIDs[h].playerIDs)))
def geo(m) = dims(m) and cells(m, m.CntsX * m.CntsY) and apart(m)
def inside(m, x, y) = m.MinX <= x and x < m.MaxX and m.MinY <= y and y < m.MaxY
def near(m, x, y, g) = m.grIDs[g].MinX <= x and (x < m.grIDs[g].MaxX or col(m, g) == m.CntsX - 1) and m.grIDs[g].MinY <= y and (y < m.grIDs[g].MaxY or row(m, g) == m.CntsY - 1)
func zinx_app_demo/mmo_game/core.NewGrID (id, minx, maxx, miny, maxy) -> (g)
  property C21
  ensures[exact] fresh(g) and g != nil and g.GID == id and g.MinX == minx and g.MaxX == maxx and g.MinY == miny and g.MaxY == maxy and fresh(g.playerIDs) and g.playerIDs != nil
  ensures[empty] forall(lambda p: p not in g.playerIDs)
func (*zinx_app_demo/mmo_game/core.GrID).Add (g, p)
  property C21
  requires g != nil and g.playerIDs != nil
  atomic g
  modifies map(g.playerIDs)
  ensures[added] forall(lambda k: iff(k in g.playerIDs, k == p or old(k in g.playerIDs)))
func (*zinx_app_demo/mmo_game/core.GrID).Remove (g, p)
  property C21
  requires g != nil and g.playerIDs != nil
  atomic g
  modifies map(g.playerIDs)
  ensures[removed] forall(lambda k: iff(k in g.playerIDs, k != p and old(k in g.playerIDs)))
func (*zinx_app_demo/mmo_game/core.GrID).GetPlyerIDs (g) -> (ids)
  property C21
  requires g != nil and g.playerIDs != nil
  atomic g
  template[only] (ids: []int): forall(lambda i: implies(0 <= i < len(ids), ids[i] in g.playerIDs and visited(ids[i])))
  template[once] (ids: []int): forall(lambda i, j: implies(0 <= i < j and j < len(ids), ids[i] != ids[j]))
  template[all] (ids: []int): forall(lambda p: implies(p in g.playerIDs and visited(p), exists(lambda i: 0 <= i < len(ids) and ids[i] == p)))
  ensures[only] forall(lambda i: implies(0 <= i < len(ids), ids[i] in g.playerIDs))
  ensures[once] forall(lambda i, j: implies(0 <= i < j and j < len(ids), ids[i] != ids[j]))
  ensures[all] forall(lambda p: implies(p in g.playerIDs, exists(lambda i: 0 <= i < len(ids) and ids[i] == p)))
func (*zinx_app_demo/mmo_game/core.AOIManager).GetGIDByPos (m, x, y) -> (g)
  property C21
  requires geo(m) and inside(m, x, y)
  ensures[exists] g in m.grIDs
  ensures[cell] near(m, x, y, g)
func zinx_app_demo/mmo_game/core.NewAOIManager (minX, maxX, cx, minY, maxY, cy) -> (m)
  property C21
  option ctime=5000
  requires small(minX) and small(maxX) and small(minY) and small(maxY) and 0 < cx < 2**15 and 0 < cy < 2**15 and maxX - minX >= cx and maxY - minY >= cy
  template[rows] (y: int, m: any *zinx_app_demo/mmo_game/core.AOIManager): cells(m, y * cx) and apart(m)
  template[same] (m: any *zinx_app_demo/mmo_game/core.AOIManager): m.MinX == minX and m.MaxX == maxX and m.MinY == minY and m.MaxY == maxY and m.CntsX == cx and m.CntsY == cy
  template[range] (y: int): 0 <= y <= cy
  template[xrange] (x: int, y: outer int): 0 <= x <= cx and 0 <= y
  template[row] (x: int, y: outer int, m: any *zinx_app_demo/mmo_game/core.AOIManager): implies(x < cx, gmod(y * cx + x, cx) == x and gdiv(y * cx + x, cx) == y) and cells(m, y * cx + x) and apart(m)
  template[empty] (m: any *zinx_app_demo/mmo_game/core.AOIManager): forall(lambda g, p: implies(g in m.grIDs, p not in m.grIDs[g].playerIDs))
  ensures[geometry] m != nil and m.MinX == minX and m.MaxX == maxX and m.MinY == minY and m.MaxY == maxY and m.CntsX == cx and m.CntsY == cy and geo(m)
  ensures[empty] forall(lambda g, p: implies(g in m.grIDs, p not in m.grIDs[g].playerIDs))
# the cells at distance at most one of cell g, by coordinates
def inmap(m, a, b) = 0 <= a < m.CntsX and 0 <= b < m.CntsY
def off(m, g, a, b, k) = inmap(m, col(m, g) + a, row(m, g) + b) and k == (row(m, g) + b) * m.CntsX + (col(m, g) + a)
def nb(m, g, k) = off(m, g, -1, -1, k) or off(m, g, -1, 0, k) or off(m, g, -1, 1, k) or off(m, g, 0, -1, k) or off(m, g, 0, 0, k) or off(m, g, 0, 1, k) or off(m, g, 1, -1, k) or off(m, g, 1, 0, k) or off(m, g, 1, 1, k)
def got(m, g, r, a, b) = implies(inmap(m, col(m, g) + a, row(m, g) + b), some(r, lambda i: r[i] == m.grIDs[(row(m, g) + b) * m.CntsX + (col(m, g) + a)]))
func (*zinx_app_demo/mmo_game/core.AOIManager).GetSurroundGrIDsByGID (m, g) -> (r)
  property C21
  option linear
  option paths=20
  requires geo(m) and implies(g in m.grIDs, 0 <= g and row(m, g) < m.CntsY)
  ensures[none] implies(g not in m.grIDs, len(r) == 0)
  ensures[only] implies(g in m.grIDs, every(r, lambda i: r[i] != nil and r[i].GID in m.grIDs and r[i] == m.grIDs[r[i].GID] and nb(m, g, r[i].GID)))
  ensures[once] forall(lambda i, j: implies(0 <= i < j and j < len(r), r[i] != r[j]))
  ensures[all] implies(g in m.grIDs, got(m, g, r, -1, -1))
  ensures[all] implies(g in m.grIDs, got(m, g, r, -1, 0))
  ensures[all] implies(g in m.grIDs, got(m, g, r, -1, 1))
  ensures[all] implies(g in m.grIDs, got(m, g, r, 0, -1))
  ensures[all] implies(g in m.grIDs, got(m, g, r, 0, 0))
  ensures[all] implies(g in m.grIDs, got(m, g, r, 0, 1))
  ensures[all] implies(g in m.grIDs, got(m, g, r, 1, -1))
  ensures[all] implies(g in m.grIDs, got(m, g, r, 1, 0))
  ensures[all] implies(g in m.grIDs, got(m, g, r, 1, 1))
func (*zinx_app_demo/mmo_game/core.AOIManager).GetPIDsByGID (m, g) -> (ids)
  property C21
  requires geo(m) and g in m.grIDs
  ensures[only] forall(lambda i: implies(0 <= i < len(ids), ids[i] in m.grIDs[g].playerIDs))
  ensures[all] forall(lambda p: implies(p in m.grIDs[g].playerIDs, exists(lambda i: 0 <= i < len(ids) and ids[i] == p)))
func (*zinx_app_demo/mmo_game/core.AOIManager).AddPIDToGrID (m, p, g)
  property C21
  requires geo(m) and g in m.grIDs
  modifies map(m.grIDs[g].playerIDs)
  ensures[added] forall(lambda k: iff(k in m.grIDs[g].playerIDs, k == p or old(k in m.grIDs[g].playerIDs)))
func (*zinx_app_demo/mmo_game/core.AOIManager).RemovePIDFromGrID (m, p, g)
  property C21
  requires geo(m) and g in m.grIDs
  modifies map(m.grIDs[g].playerIDs)
  ensures[removed] forall(lambda k: iff(k in m.grIDs[g].playerIDs, k != p and old(k in m.grIDs[g].playerIDs)))
func (*zinx_app_demo/mmo_game/core.AOIManager).AddToGrIDByPos (m, p, x, y)
  property C21
  requires geo(m) and inside(m, x, y)
  modifies anymap map[int]bool
  ensures[added] forall(lambda g, k: implies(g in m.grIDs, iff(k in m.grIDs[g].playerIDs, old(k in m.grIDs[g].playerIDs) or (k == p and near(m, x, y, g)))))
func (*zinx_app_demo/mmo_game/core.AOIManager).RemoveFromGrIDByPos (m, p, x, y)
  property C21
  requires geo(m) and inside(m, x, y)
  modifies anymap map[int]bool
  ensures[removed] forall(lambda g, k: implies(g in m.grIDs, iff(k in m.grIDs[g].playerIDs, old(k in m.grIDs[g].playerIDs) and not (k == p and near(m, x, y, g)))))
