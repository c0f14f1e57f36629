# The session table and the session's channel binding (real bodies behind the ghosts of C09.spec)
package server
monitor server.SessionManager.RWMutex self [C09]
guards mapof(self.sessionsByToken)
inv nonnil: forall(k, ua.NodeID, has(self.sessionsByToken, k) ==> self.sessionsByToken[k] != nil)
monitor server.Session.RWMutex self [C09]
guards self.channelId
owner server.Session.channelId (*server.Session).SetSecureChannelId (*server.Session).delete
owner server.serverSecureChannel.channelID server.newServerSecureChannel
# "exported": exported helpers count by their callers inside the module
owner server.Session.lastAccess exported (*server.SessionManager).Get server.NewSession
owner server.Session.timeout server.NewSession
owner server.serverSecureChannel.discoveryOnly (*server.serverSecureChannel).Open (*server.serverSecureChannel).onOpen
# reading of the clock: how long ago t was; and which times are readings of the present
func time.Since(t) (d)
  trusted
  ensures d == uf(since, t)
func time.Now() (t)
  trusted
  ensures ufb(isnow, t)
inline (time.Duration).Milliseconds
define idle(t) = ite(uf(since, t) >= 0, div(uf(since, t), 1000000), -div(-uf(since, t), 1000000))
func (*server.SessionManager).Get(m, tok) (s, ok) [C09]
  noframe
  requires m != nil
  ensures found: ok ==> s != nil && has(m.sessionsByToken, tok) && m.sessionsByToken[tok] == s
  ensures alive: ok ==> !(idle(old(s.lastAccess)) > conv(int64, s.timeout))
  ensures renewed: ok ==> ufb(isnow, s.lastAccess)
  ensures none: !ok ==> s == nil
  ensures norevival: !ok && has(m.sessionsByToken, tok) ==> let(e, m.sessionsByToken[tok], e.lastAccess == old(e.lastAccess))
  ensures complete: has(m.sessionsByToken, tok) && !(idle(let(e, m.sessionsByToken[tok], old(e.lastAccess))) > conv(int64, m.sessionsByToken[tok].timeout)) ==> ok
func (*server.Session).IsExpired(s) (r) [C09]
  noframe
  requires s != nil
  ensures elapsed: r == (idle(s.lastAccess) > conv(int64, s.timeout))
func (*server.Session).SetLastAccess(s, v) [C09]
  noframe
  requires s != nil
  ensures set: s.lastAccess == v
func (*server.Session).SecureChannelId(s) (r) [C09]
  noframe
  requires s != nil
  ensures value: r == s.channelId
func (*server.Session).SetSecureChannelId(s, v) [C09]
  noframe
  requires s != nil
  ensures value: s.channelId == v
func (*server.serverSecureChannel).ChannelID(ch) (r) [C09]
  noframe
  requires ch != nil
  ensures value: r == old(ch.channelID)
func (*server.Session).delete(s) [C09]
  noframe
  requires s != nil
  ensures unbound: s.channelId == 0
