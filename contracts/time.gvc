# The wall field of a time.Time stands for its instant; gh(0, "clock") is the clock.
func time.Now () -> (t)
  trusted the clock never goes back
  modifies ghost 0.clock
  ensures gh(0, "clock") >= old(gh(0, "clock")) and t.wall == gh(0, "clock")
func (time.Time).Sub (t, u) -> (d)
  trusted the distance of two instants
  pure
  ensures d == t.wall - u.wall
func time.Since (t) -> (d)
  trusted the distance from now
  modifies ghost 0.clock
  ensures gh(0, "clock") >= old(gh(0, "clock")) and d == gh(0, "clock") - t.wall
func (time.Time).Before (t, u) -> (r)
  trusted order of instants
  pure
  ensures iff(r, t.wall < u.wall)
func (time.Time).After (t, u) -> (r)
  trusted order of instants
  pure
  ensures iff(r, t.wall > u.wall)
func (time.Time).Add (t, d) -> (u)
  trusted a later instant
  pure
  ensures u.wall == t.wall + d
