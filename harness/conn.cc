#include "conn.h"
namespace conn {
TicketLog& Log() { static thread_local TicketLog l; return l; }
namespace { bool Wait() { Log().waits++; return true; } }
s2a::s2a_ticket_sender::WaitOnTicketSender Sender(s2a::s2a_ticket_sender::TicketSenderOptions& o) {
  TicketCall k;
  k.url = o.handshaker_service_url;
  k.identity = o.local_identity.GetIdentityString();
  k.type = static_cast<int>(o.local_identity.GetIdentityType());
  k.id = o.connection_id;
  k.factory = o.channel_factory.get();
  k.options = o.channel_options.get();
  k.null_tickets = o.tickets == nullptr;
  if (o.tickets) for (auto& t : *o.tickets) k.tickets.push_back(t ? *t : "<null>");
  Log().calls.push_back(k);
  return Wait;
}
}  // namespace conn
