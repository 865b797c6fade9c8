// Payloads: a message's content is a pure function of (id, shape seed); received content is
// compared by walking it through the public API.
#pragma once
#include "scen.h"
#include <lamppost/messages/Datagram.h>

lp::messages::Datagram make_payload(long id, sim::u64 shape);
// -1: not one of ours
long payload_id(lp::messages::Datagram& d);
// empty string if equal, otherwise where it differs
std::string payload_diff(lp::messages::Datagram& d, long id, sim::u64 shape);
void scribble(lp::messages::Datagram& d, sim::u64 how);   // change a datagram in place, deeply

// configuration values: JSON text, and comparison of what arrived with what the text denotes
std::string cfg_json(sim::u64 shape, long token);      // empty: the entry has no configuration at all
std::string cfg_diff(lp::messages::Datagram& d, sim::u64 shape, long token);
