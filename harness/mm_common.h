// a stop of bus route 7 with its links, and passengers with fixed routes
#pragma once
#include "vp.h"
#include "multimodal.h"
#include <vector>
#include <stdexcept>
// the routing object a bus stop asks for its passengers' next links: only the fixed passenger
// routing is used (the full object also needs the driving network and the adaptive part)
static MNM_Routing_Multimodal_Hybrid *routing_of (MNM_Routing_PassengerBusTransit_Fixed *f)
{
  auto *h = (MNM_Routing_Multimodal_Hybrid *) calloc (1, sizeof (MNM_Routing_Multimodal_Hybrid));
  h->m_routing_passenger_fixed = f;
  h->m_routing_multimodal_adaptive = nullptr;
  return h;
}
static double last (MNM_Cumulative_Curve *c) { return c->m_recorder.back ().second; }
template <class C> static int in (const C &c, MNM_Passenger *p) { int n = 0; for (auto *q : c) n += q == p; return n; }
static int in_queue (MNM_Transit_Link *l, MNM_Passenger *p) { return (int) l->m_passenger_queue.count (p); }
static int on_link (MNM_Transit_Link *l, MNM_Passenger *p) { return in (l->m_incoming_array, p) + in_queue (l, p) + in (l->m_finished_array, p); }
