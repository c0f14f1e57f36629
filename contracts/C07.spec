# counters: aold/anew/acount record the atomic updates the function itself made to a cell
package server
ghost aold int
ghost anew int
ghost acount int
define succ(v) = ite(v == 4294967295, 1, v + 1)
define next(r, p, n0) = r != 0 && r == succ(G.aold[p]) && G.anew[p] == r && G.acount[p] == n0 + 1

func (*server.serverSecureChannel).getNextSequenceNumber(ch) (r) [C07]
  modifies ch.lastSequenceNumber, G.aold[&ch.lastSequenceNumber], G.anew[&ch.lastSequenceNumber], G.acount[&ch.lastSequenceNumber]
  ensures nonzero: r != 0
  ensures successor: r == succ(G.aold[&ch.lastSequenceNumber])
  ensures atomic: G.anew[&ch.lastSequenceNumber] == r && G.acount[&ch.lastSequenceNumber] == old(G.acount[&ch.lastSequenceNumber]) + 1
  safe
func (*server.serverSecureChannel).getNextTokenID(ch) (r) [C07]
  modifies ch.lastTokenID, G.aold[&ch.lastTokenID], G.anew[&ch.lastTokenID], G.acount[&ch.lastTokenID]
  ensures nonzero: r != 0
  ensures successor: r == succ(G.aold[&ch.lastTokenID])
  ensures atomic: G.anew[&ch.lastTokenID] == r && G.acount[&ch.lastTokenID] == old(G.acount[&ch.lastTokenID]) + 1
  safe
func (*server.Server).getNextChannelID(srv) (r) [C07]
  modifies srv.lastChannelID, G.aold[&srv.lastChannelID], G.anew[&srv.lastChannelID], G.acount[&srv.lastChannelID]
  ensures nonzero: r != 0
  ensures successor: r == succ(G.aold[&srv.lastChannelID])
  ensures atomic: G.anew[&srv.lastChannelID] == r && G.acount[&srv.lastChannelID] == old(G.acount[&srv.lastChannelID]) + 1
  safe
func (*client.clientSecureChannel).getNextRequestHandle(ch) (r) [C07]
  modifies ch.requestHandle, G.aold[&ch.requestHandle], G.anew[&ch.requestHandle], G.acount[&ch.requestHandle]
  ensures nonzero: r != 0
  ensures successor: r == succ(G.aold[&ch.requestHandle])
  ensures atomic: G.anew[&ch.requestHandle] == r && G.acount[&ch.requestHandle] == old(G.acount[&ch.requestHandle]) + 1
  safe
func (*client.clientSecureChannel).getNextSequenceNumber(ch) (r) [C07]
  modifies ch.sequenceNumber, G.aold[&ch.sequenceNumber], G.anew[&ch.sequenceNumber], G.acount[&ch.sequenceNumber]
  ensures nonzero: r != 0
  ensures successor: r == succ(G.aold[&ch.sequenceNumber])
  ensures atomic: G.anew[&ch.sequenceNumber] == r && G.acount[&ch.sequenceNumber] == old(G.acount[&ch.sequenceNumber]) + 1
  safe
# constructors: the id comes from one atomic step of the package counter (zero is skipped)
func (*server.Subscription).setPublishingInterval(s, v) [C07]
  modifies s.publishingInterval
func (*server.Subscription).setMaxKeepAliveCount(s, v) [C07]
  modifies s.maxKeepAliveCount
func (*server.Subscription).setLifetimeCount(s, v) [C07]
  modifies s.maxLifetimeCount
func (*server.Subscription).setMaxNotificationsPerPublish(s, v) [C07]
  modifies s.maxNotificationsPerPublish
func container/list.New() (r)
  trusted
func github.com/google/uuid.New() (r)
  trusted
func server.NewSubscription(manager, session, publishingInterval, lifetimeCount, maxKeepAliveCount, maxNotificationsPerPublish, publishingEnabled, priority) (r) [C07]
  noframe
  requires session != nil
  ensures nonzero: r.id != 0
  ensures successor: r.id == succ(G.aold[&subscriptionID]) || G.aold[&subscriptionID] == 0 && r.id == 1
  ensures atomic: G.anew[&subscriptionID] == r.id
# nobody else writes the counters
owner server.serverSecureChannel.lastSequenceNumber (*server.serverSecureChannel).getNextSequenceNumber
owner server.serverSecureChannel.lastTokenID (*server.serverSecureChannel).getNextTokenID
owner server.Server.lastChannelID (*server.Server).getNextChannelID
owner client.clientSecureChannel.requestHandle (*client.clientSecureChannel).getNextRequestHandle
owner client.clientSecureChannel.sequenceNumber (*client.clientSecureChannel).getNextSequenceNumber
owner server.subscriptionID server.NewSubscription
owner server.monitoredItemID server.NewDataChangeMonitoredItem server.NewEventMonitoredItem
owner server.Subscription.id server.NewSubscription
owner server.DataChangeMonitoredItem.id server.NewDataChangeMonitoredItem
owner server.EventMonitoredItem.id server.NewEventMonitoredItem
# monitored item constructors
func (*server.DataChangeMonitoredItem).setQueueSize(mi, v)
  trusted
  modifies mi.queueSize, mi.queue
func (*server.DataChangeMonitoredItem).setSamplingInterval(mi, v)
  trusted
  modifies mi.samplingInterval, mi.ti
func (*server.DataChangeMonitoredItem).setFilter(mi, v)
  trusted
  modifies mi.dataChangeFilter
func (*server.DataChangeMonitoredItem).startMonitoring(mi)
  trusted
  modifies mi.ts, mi.prequeue
func (*server.EventMonitoredItem).setQueueSize(mi, v)
  trusted
  modifies mi.queueSize, mi.queue
func (*server.EventMonitoredItem).setFilter(mi, v)
  trusted
  modifies mi.eventFilter
func (*server.EventMonitoredItem).startMonitoring(mi)
  trusted
func server.NewDataChangeMonitoredItem(sub, node, itemToMonitor, monitoringMode, parameters, timestampsToReturn, minSamplingInterval) (r) [C07]
  noframe
  requires sub != nil && sub.manager != nil
  ensures nonzero: r.id != 0
  ensures successor: r.id == succ(G.aold[&monitoredItemID]) || G.aold[&monitoredItemID] == 0 && r.id == 1
  ensures atomic: G.anew[&monitoredItemID] == r.id
func server.NewEventMonitoredItem(sub, node, itemToMonitor, monitoringMode, parameters) (r) [C07]
  noframe
  requires sub != nil && sub.manager != nil
  ensures nonzero: r.id != 0
  ensures successor: r.id == succ(G.aold[&monitoredItemID]) || G.aold[&monitoredItemID] == 0 && r.id == 1
  ensures atomic: G.anew[&monitoredItemID] == r.id
