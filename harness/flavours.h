// The explored configurations ("flavours").
#pragma once
#include "sim.h"

namespace hx {

inline std::vector<Opts> Flavours() {
  std::vector<Opts> v;
  auto add = [&](const char* name, std::function<void(Opts&)> f) {
    Opts o;
    o.name = name;
    f(o);
    v.push_back(o);
  };
  const std::string elect1 = "campaign n=1 arg=0 S=0 H=0 crash=0 stage=0 flags=0";
  const std::string prop1 = "propose n=1 arg=0 S=0 H=0 crash=0 stage=0 flags=0";
  // plain three-node group: elections, proposals, partitions, lost replies
  add("base3", [](Opts& o) { o.depth = 5; o.budget = 2; o.heal = true; });
  add("wave3", [](Opts& o) { o.sched = Sched::kWave; o.depth = 5; o.budget = 2; });
  add("async3", [](Opts& o) { o.sched = Sched::kAsync; o.depth = 5; o.budget = 2; });
  // late and duplicated messages
  add("stale3", [](Opts& o) { o.hold = 3; o.delivers = 2; o.dups = 1; o.depth = 5; o.budget = 3; });
  // crashes at every persistence stage
  add("crash3", [](Opts& o) { o.crashes = 2; o.depth = 4; o.budget = 2; o.crash_nth2 = true; });
  add("crashe3", [](Opts& o) { o.crashes = 1; o.crash_entries_only = true; o.depth = 4; o.budget = 2; o.restart_applied = true; });
  add("crashsnap3", [](Opts& o) { o.crashes = 1; o.compacts = 1; o.depth = 5; o.budget = 2; });
  // message-level interleavings
  add("micro3", [=](Opts& o) { o.micro = true; o.hold = 12; o.delivers = 40; o.campaigns = 2; o.props = 1; o.depth = 9; o.budget = 1; o.dups = 1; });
  // pre-vote and check-quorum with ticks
  add("prevote3", [](Opts& o) { o.prevote = true; o.depth = 5; o.budget = 2; o.heal = true; });
  add("prevotestale3", [](Opts& o) { o.prevote = true; o.hold = 3; o.delivers = 2; o.depth = 5; o.budget = 3; });
  add("cq3", [](Opts& o) { o.checkq = true; o.ticks = 8; o.tick_ks = {1, 3}; o.props = 1; o.depth = 5; o.budget = 2; });
  add("cqpv3", [](Opts& o) { o.checkq = true; o.prevote = true; o.ticks = 8; o.tick_ks = {1, 3}; o.props = 1; o.depth = 5; o.budget = 2; o.heal = true; });
  // members with different options, and options changed by a restart
  add("mixpv3", [](Opts& o) { o.prevote = true; o.pv_off = 2; o.sym = false; o.depth = 5; o.budget = 2; o.heal = true; });
  add("mixpvstale3", [](Opts& o) { o.prevote = true; o.pv_off = 6; o.sym = false; o.hold = 3; o.delivers = 2; o.depth = 5; o.budget = 3; o.props = 1; });
  add("mixcq3", [](Opts& o) { o.checkq = true; o.prevote = true; o.pv_off = 1; o.cq_off = 2; o.sym = false; o.ticks = 6; o.tick_ks = {1, 3}; o.props = 1; o.depth = 5; o.budget = 2; o.heal = true; });
  add("upgrade3", [](Opts& o) { o.upgrade = true; o.crashes = 2; o.props = 1; o.depth = 5; o.budget = 2; o.heal = true; });
  // leadership transfer
  add("transfer3", [](Opts& o) { o.transfers = 2; o.depth = 5; o.budget = 2; o.hold = 2; o.delivers = 1; });
  add("transfertick3", [=](Opts& o) { o.transfers = 2; o.ticks = 6; o.tick_ks = {1, 3}; o.campaigns = 1; o.depth = 5; o.budget = 1; o.prefix = {elect1}; o.heal = true; });
  // membership
  add("cc4", [](Opts& o) { o.n = 4; o.ccs = 2; o.cc_list = {"v4", "r3", "r1", "l4"}; o.depth = 5; o.budget = 1; o.props = 1; o.campaigns = 2; });
  add("cc4p", [=](Opts& o) { o.n = 4; o.ccs = 2; o.cc_list = {"v4", "r3", "r1", "2:l4"}; o.depth = 4; o.budget = 2; o.props = 1; o.campaigns = 2; o.prefix = {elect1}; });
  add("joint4", [=](Opts& o) { o.n = 4; o.ccs = 2; o.cc_list = {"2:v4 r1", "2e:v4 r3", "2i:l3 v4", "leave"}; o.depth = 4; o.budget = 2; o.props = 1; o.campaigns = 2; o.prefix = {elect1}; });
  add("joint5", [=](Opts& o) { o.n = 5; o.ccs = 2; o.cc_list = {"2e:v4 v5 r2 r3", "leave"}; o.depth = 4; o.budget = 1; o.props = 0; o.campaigns = 2; o.prefix = {elect1}; });
  add("cccrash3", [=](Opts& o) { o.n = 4; o.ccs = 1; o.cc_list = {"v4", "2:v4 r1", "2e:l3 v4"}; o.depth = 3; o.budget = 2; o.crashes = 1; o.props = 1; o.campaigns = 2; o.prefix = {elect1}; });
  add("cc2", [=](Opts& o) { o.n = 2; o.voters = {1, 2}; o.ccs = 2; o.cc_list = {"r2", "r1", "v2", "l2"}; o.reads = 1; o.depth = 5; o.budget = 2; o.props = 1; });
  add("cc1", [=](Opts& o) { o.n = 2; o.voters = {1}; o.ccs = 3; o.cc_list = {"v2", "r1", "r2", "l2", "2e:v2 r1", "leave"}; o.reads = 1; o.depth = 5; o.budget = 2; o.props = 1; o.sym = false; });
  // snapshots
  add("snap3", [=](Opts& o) { o.compacts = 2; o.depth = 5; o.budget = 2; o.props = 2; o.compact_keep = true; o.heal = true; o.prefix = {elect1}; });
  add("snapstale3", [=](Opts& o) { o.compacts = 1; o.hold = 3; o.delivers = 2; o.depth = 5; o.budget = 3; o.campaigns = 2; o.prefix = {elect1}; });
  add("snapcc4", [=](Opts& o) { o.n = 4; o.compacts = 1; o.ccs = 1; o.cc_list = {"v4", "l4", "2e:v4 r3"}; o.depth = 5; o.budget = 1; o.props = 1; o.campaigns = 1; o.prefix = {elect1}; });
  add("snapfail3", [=](Opts& o) { o.compacts = 1; o.snapfail = 2; o.unreach = 1; o.depth = 5; o.budget = 2; o.props = 1; o.campaigns = 1; o.prefix = {elect1}; o.heal = true; });
  // learners
  add("learner3", [](Opts& o) { o.voters = {1, 2}; o.learners = {3}; o.sym = false; o.ccs = 1; o.cc_list = {"v3", "l2", "r3"}; o.reads = 1; o.transfers = 1; o.depth = 4; o.budget = 2; });
  // tiny limits
  add("tiny3", [](Opts& o) { o.max_size = 1; o.inflight = 1; o.max_uncommitted = 6; o.max_committed = 1; o.props = 3; o.depth = 5; o.budget = 2; o.heal = true; });
  add("tiny3b", [](Opts& o) { o.max_size = 20; o.inflight = 2; o.max_committed = 0; o.props = 3; o.depth = 5; o.budget = 2; o.unreach = 1; });
  // five nodes, elections and old-term entries
  add("five", [](Opts& o) { o.n = 5; o.voters = {1, 2, 3, 4, 5}; o.depth = 4; o.budget = 2; o.props = 1; o.campaigns = 3; o.beats = 0; o.hops = {2}; o.fwd_props = false; });
  // reads
  add("read3", [](Opts& o) { o.reads = 2; o.depth = 5; o.budget = 2; o.props = 1; });
  add("readstale3", [=](Opts& o) { o.reads = 2; o.hold = 3; o.delivers = 2; o.dups = 1; o.depth = 5; o.budget = 3; o.props = 1; o.prefix = {elect1}; });
  add("readcc3", [=](Opts& o) { o.reads = 1; o.ccs = 2; o.cc_list = {"r1", "r2", "r3", "l2"}; o.depth = 5; o.budget = 2; o.props = 1; o.prefix = {elect1}; o.campaigns = 2; });
  // reads under the leader's lease
  add("lease3", [](Opts& o) { o.checkq = true; o.lease_read = true; o.ticks = 6; o.tick_ks = {1, 3}; o.reads = 2; o.depth = 5; o.budget = 2; o.props = 1; o.heal = true; });
  add("leasestale3", [=](Opts& o) { o.checkq = true; o.lease_read = true; o.ticks = 3; o.tick_ks = {3}; o.reads = 2; o.hold = 3; o.delivers = 2; o.depth = 5; o.budget = 3; o.props = 1; o.campaigns = 2; o.prefix = {elect1}; });
  add("leasexfer3", [=](Opts& o) { o.checkq = true; o.lease_read = true; o.transfers = 2; o.reads = 2; o.depth = 5; o.budget = 2; o.props = 1; o.campaigns = 1; o.prefix = {elect1}; });
  add("leasecc3", [=](Opts& o) { o.checkq = true; o.lease_read = true; o.ccs = 2; o.cc_list = {"r1", "r2", "r3", "l2"}; o.transfers = 1; o.reads = 1; o.depth = 5; o.budget = 2; o.props = 1; o.campaigns = 1; o.prefix = {elect1}; });
  // bootstrap
  add("boot3", [](Opts& o) { o.bootstrap = true; o.depth = 4; o.budget = 2; o.crashes = 1; });
  add("nofwd3", [](Opts& o) { o.nofwd = true; o.depth = 4; o.budget = 2; });
  // recovery after membership changes, crashes and learners
  add("healcc4", [=](Opts& o) { o.n = 4; o.prevote = true; o.ccs = 2; o.cc_list = {"v4", "r3", "r1", "l4", "2e:v4 r2"}; o.depth = 5; o.budget = 1; o.props = 1; o.campaigns = 2; o.prefix = {elect1}; o.heal = true; });
  add("healjoint4", [=](Opts& o) { o.n = 4; o.prevote = true; o.ccs = 2; o.cc_list = {"2:v4 r1", "2e:v4 r3", "2i:l3 v4", "leave"}; o.depth = 5; o.budget = 1; o.props = 1; o.campaigns = 2; o.prefix = {elect1}; o.heal = true; });
  add("healcrash3", [](Opts& o) { o.crashes = 1; o.depth = 5; o.budget = 2; o.heal = true; });
  add("heallearn3", [](Opts& o) { o.prevote = true; o.voters = {1, 2}; o.learners = {3}; o.sym = false; o.compacts = 1; o.ccs = 1; o.cc_list = {"v3"}; o.depth = 5; o.budget = 2; o.heal = true; });
  add("healcq3", [=](Opts& o) { o.checkq = true; o.ticks = 8; o.tick_ks = {1, 3}; o.props = 1; o.transfers = 1; o.depth = 5; o.budget = 2; o.heal = true; o.prefix = {elect1}; });
  // transfers and pre-votes across membership changes
  add("transfercc4", [=](Opts& o) { o.n = 4; o.ccs = 2; o.cc_list = {"v4", "r2", "r1", "l2"}; o.transfers = 2; o.depth = 4; o.budget = 2; o.props = 1; o.campaigns = 1; o.prefix = {elect1}; });
  add("pvcc4", [=](Opts& o) { o.n = 4; o.prevote = true; o.ccs = 1; o.cc_list = {"v4", "r3", "r1"}; o.depth = 4; o.budget = 2; o.props = 1; o.campaigns = 3; o.prefix = {elect1}; });
  // message-level interleavings of reads and of a snapshot transfer
  add("microread3", [=](Opts& o) { o.micro = true; o.hold = 12; o.delivers = 40; o.campaigns = 2; o.props = 1; o.reads = 1; o.depth = 9; o.budget = 1; o.prefix = {elect1}; });
  add("micropv3", [=](Opts& o) { o.micro = true; o.prevote = true; o.hold = 12; o.delivers = 40; o.campaigns = 2; o.props = 0; o.depth = 12; o.budget = 1; });
  // an application that is slow to Advance: input and messages arrive while a Ready is pending
  add("lag3", [](Opts& o) { o.lag = true; o.depth = 5; o.budget = 2; o.campaigns = 3; });
  add("lagcrash3", [](Opts& o) { o.lag = true; o.crashes = 1; o.depth = 5; o.budget = 3; o.part = false; o.campaigns = 3; o.props = 1; o.hops = {1}; });
  add("lagsnap3", [=](Opts& o) { o.lag = true; o.compacts = 1; o.depth = 5; o.budget = 3; o.props = 2; o.campaigns = 2; o.hops = {1}; o.prefix = {elect1}; });
  add("lagcc4", [=](Opts& o) { o.lag = true; o.n = 4; o.ccs = 2; o.cc_list = {"v4", "r1", "2:v4 r2"}; o.depth = 4; o.budget = 2; o.props = 1; o.campaigns = 2; o.prefix = {elect1}; });
  add("lagread3", [=](Opts& o) { o.lag = true; o.reads = 2; o.depth = 5; o.budget = 2; o.props = 1; o.campaigns = 2; o.prefix = {elect1}; });
  add("splitvote3", [=](Opts& o) { o.micro = true; o.split = true; o.hold = 12; o.delivers = 40; o.campaigns = 2; o.props = 0; o.crashes = 1; o.depth = 10; o.budget = 1; });
  add("split3", [=](Opts& o) { o.micro = true; o.split = true; o.hold = 12; o.delivers = 40; o.campaigns = 1; o.props = 2; o.depth = 10; o.budget = 1; o.prefix = {elect1}; });
  return v;
}

}  // namespace hx
