#pragma once
#include "world.h"
#include <signal.h>
#include <errno.h>
#include <sys/socket.h>
void net_params(Plan &p, Rng &r, bool faults);
void topo_params(Plan &p, Rng &r);
string role_flags(Rng &r);
Item &add_conn(Plan &p, Rng &r, int id, i64 at, i64 big);
Item &simple_conn(Plan &p, Rng &r, int id, i64 at, i64 n, i64 dn);
void to_spipe(Item &c);
void start_tunnel(World &w, bool target = true);
void start_conns(World &w);
int n_conn_items(World &w);
bool run_until_done(World &w, i64 tmax_s);
void shrink_for_seg(Plan &p);
i64 chunk_pick(Rng &r); i64 size_pick(Rng &r, i64 big);
int held_socks(World &w, Process *p);            // sockets of connections (not the listener, not the resolver's pair)
void peer_hooks(World &w); void spawn_peer(World &w, const Item &it, i64 life);   // misbehaving peers (P10, P15)
