# Connection properties: a map behind a mutex, for the three transports.
type znet.Connection
  lock propertyLock guards property
func (*znet.Connection).SetProperty (c, key, value)
  property C25
  requires c != nil
  atomic c
  modifies c.property, map(c.property)
  ensures[stored] key in c.property and c.property[key] == value
  ensures[others] forall(lambda k: implies(k != key, iff(k in c.property, old(k in c.property)) and implies(k in c.property, c.property[k] == old(c.property[k]))), "string")
func (*znet.Connection).GetProperty (c, key) -> (v, err)
  property C25
  requires c != nil
  atomic c
  ensures[found] implies(key in c.property, err == nil and v == c.property[key])
  ensures[missing] implies(key not in c.property, err != nil and v == nil)
func (*znet.Connection).RemoveProperty (c, key)
  property C25
  requires c != nil
  atomic c
  modifies c.property, map(c.property)
  ensures[gone] key not in c.property
  ensures[others] forall(lambda k: implies(k != key, iff(k in c.property, old(k in c.property)) and implies(k in c.property, c.property[k] == old(c.property[k]))), "string")
type znet.WsConnection
  lock propertyLock guards property
func (*znet.WsConnection).SetProperty (c, key, value)
  property C25
  requires c != nil
  atomic c
  modifies c.property, map(c.property)
  ensures[stored] key in c.property and c.property[key] == value
  ensures[others] forall(lambda k: implies(k != key, iff(k in c.property, old(k in c.property)) and implies(k in c.property, c.property[k] == old(c.property[k]))), "string")
func (*znet.WsConnection).GetProperty (c, key) -> (v, err)
  property C25
  requires c != nil
  atomic c
  ensures[found] implies(key in c.property, err == nil and v == c.property[key])
  ensures[missing] implies(key not in c.property, err != nil and v == nil)
func (*znet.WsConnection).RemoveProperty (c, key)
  property C25
  requires c != nil
  atomic c
  modifies c.property, map(c.property)
  ensures[gone] key not in c.property
  ensures[others] forall(lambda k: implies(k != key, iff(k in c.property, old(k in c.property)) and implies(k in c.property, c.property[k] == old(c.property[k]))), "string")
type znet.KcpConnection
  lock propertyLock guards property
func (*znet.KcpConnection).SetProperty (c, key, value)
  property C25
  requires c != nil
  atomic c
  modifies c.property, map(c.property)
  ensures[stored] key in c.property and c.property[key] == value
  ensures[others] forall(lambda k: implies(k != key, iff(k in c.property, old(k in c.property)) and implies(k in c.property, c.property[k] == old(c.property[k]))), "string")
func (*znet.KcpConnection).GetProperty (c, key) -> (v, err)
  property C25
  requires c != nil
  atomic c
  ensures[found] implies(key in c.property, err == nil and v == c.property[key])
  ensures[missing] implies(key not in c.property, err != nil and v == nil)
func (*znet.KcpConnection).RemoveProperty (c, key)
  property C25
  requires c != nil
  atomic c
  modifies c.property, map(c.property)
  ensures[gone] key not in c.property
  ensures[others] forall(lambda k: implies(k != key, iff(k in c.property, old(k in c.property)) and implies(k in c.property, c.property[k] == old(c.property[k]))), "string")
