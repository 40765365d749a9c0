"""Which explorations decide which property.

Each entry of JOBS[property] is a job name:
  c:<flavour>   cluster explorer on that flavour, monitors of this property on
  u:<name>      component checker of that name (harness/units*.cc)
  t:<name>      thread-schedule explorer (harness/conc*.cc)
  s:<name>      component checker, in a build with address and undefined-behaviour sanitizers
QUICK gives the time cap (seconds) of one cluster job in the quick tier.
"""
JOBS = {
    "C01": "c:base3 c:stale3 c:crash3 c:prevotestale3 c:cc4p c:joint4 c:cccrash3 c:transfer3 c:five c:micro3 c:joint5 c:cc2 u:elect_seq@3 c:micropv3 c:pvcc4 c:lagcrash3 c:splitvote3 c:mixpv3",
    "C02": "c:base3 c:stale3 c:crash3 c:crashe3 c:prevotestale3 c:micro3 c:transfer3 c:cqpv3 c:five c:snapstale3 u:elect_seq@3 c:micropv3 c:lag3 c:lagcrash3 c:splitvote3 c:mixpv3 c:mixpvstale3 c:upgrade3 u:relabel@8",
    "C03": "c:base3 c:stale3 c:crash3 c:async3 c:wave3 c:micro3 c:five c:snapstale3 c:tiny3b c:crashe3 u:follower_append@2 c:lag3 c:lagsnap3 c:split3",
    "C04": "c:base3 c:stale3 c:crash3 c:crashsnap3 c:cc4p c:joint4 c:cccrash3 c:snapstale3 c:snapcc4 c:five c:tiny3 c:micro3 c:lag3 c:lagcrash3 c:lagcc4 u:follower_append@2 u:bulk@8",
    "C05": "c:base3 c:stale3 c:crash3 c:crashsnap3 c:cc4p c:joint4 c:cccrash3 c:snapstale3 c:snapcc4 c:five c:crashe3 c:micro3 c:lag3 c:lagcrash3 c:split3 u:follower_snapshot@6 u:follower_append@2",
    "C06": "c:tiny3 c:tiny3b c:async3 c:wave3 c:crashsnap3 c:crashe3 c:snap3 c:snapstale3 c:cc2 c:boot3 c:snapcc4 u:raftlog_seq u:start_from_storage c:lag3 c:lagsnap3 c:split3 u:follower_snapshot@6 u:bulk@8",
    "C07": "c:base3 c:five c:stale3 c:cc4 c:cc4p c:joint4 c:joint5 c:learner3 c:crash3 c:cc1 c:cc2 c:micro3 u:follower_append@2 u:probe_converges c:lag3 c:split3",
    "C08": "c:cc4 c:cc4p c:joint4 c:joint5 c:cccrash3 c:cc2 c:cc1 c:learner3 c:snapcc4 u:proposals@6 c:transfercc4 c:pvcc4 c:healcc4 c:healjoint4 c:lagcc4",
    "C11": "c:read3 c:readstale3 c:readcc3 c:learner3 c:cc1 c:cc2 c:microread3 c:lagread3 u:read_quorum@2 u:relabel@8 u:bulk@8",
    "C12": "c:crash3 c:crashe3 c:crashsnap3 c:cccrash3 c:boot3 u:start_from_storage c:healcrash3 c:lag3 c:lagcrash3 c:lagsnap3 c:splitvote3 c:upgrade3",
    "C13": "c:tiny3 c:tiny3b c:snap3 c:snapfail3 c:snapstale3 c:base3 c:stale3 c:micro3 u:probe_converges u:flow_control@6 u:inflights_seq u:relabel@8 u:bulk@8",
    "C14": "c:tiny3 u:uncommitted_quota@4 u:proposals@6",
    "C18": "c:snap3 c:snapstale3 c:snapcc4 c:snapfail3 c:crashsnap3 u:flow_control@6 c:lagsnap3 u:follower_snapshot@6 u:relabel@8 u:bulk@8",
    "C19": "c:transfer3 c:transfertick3 c:learner3 u:transfer_seq@2 u:step_filter u:proposals@6 c:transfercc4 u:relabel@8",
    "C20": "c:prevote3 c:prevotestale3 c:cqpv3 u:elect_seq@3 c:pvcc4 c:micropv3 c:mixpv3 c:mixpvstale3 c:upgrade3",
    "C21": "c:cq3 c:cqpv3 u:elect_seq@3 u:check_quorum c:healcq3 u:leader_clock c:mixcq3",
    "C22": "c:learner3 c:cc4 c:cc4p c:snapcc4 c:joint4 c:heallearn3",
    "C23": "c:base3 c:prevote3 c:cqpv3 c:transfertick3 c:snap3 c:snapfail3 c:tiny3 u:elect_seq@3 u:probe_converges u:flow_control@6 c:healcc4 c:healjoint4 c:healcrash3 c:heallearn3 c:healcq3 u:transfer_seq@2 c:mixpv3 c:mixcq3 c:upgrade3 u:bulk@8",
    "C24": "c:base3 c:async3 c:wave3 c:tiny3 c:snap3 c:read3 c:crash3 c:cc4 t:ready_reader c:lag3 c:lagcc4 c:lagread3 c:split3",
    "C25": "c:base3 c:nofwd3 c:tiny3 c:transfer3 c:stale3 c:async3 u:uncommitted_quota@4 u:proposals@6 u:proposals_elsewhere u:bulk@8",
    "C26": "c:base3 c:stale3 c:crash3 c:crashsnap3 c:prevotestale3 c:cqpv3 c:transfer3 c:cc4p c:joint4 c:cc2 c:cc1 c:snapstale3 c:snapcc4 c:snapfail3 c:learner3 c:tiny3 c:readcc3 c:lease3 c:leasecc3 c:boot3 c:readstale3 c:micro3 u:step_filter c:transfercc4 c:pvcc4 c:micropv3 c:lag3 c:lagcrash3 c:lagsnap3 c:lagcc4 c:mixpv3",
    "C28": "c:boot3 u:bootstrap_inputs",
    "C31": "c:base3 c:learner3 c:joint4 c:snap3 c:transfer3 c:crash3 u:status_private u:start_from_storage u:transfer_seq@2 u:relabel@8",
    "C09": "u:conf_simple_joint u:conf_two4 u:conf_joint u:conf_chain u:conf_restore u:conf_state_eq c:cc4p c:joint4 c:snapcc4 u:conf_formats",
    "C10": "u:majority_ack u:majority_large u:joint_ack u:joint_vote u:tracker_quorum u:tracker_votes",
    "C15": "u:raftlog_seq u:raftlog_maybe_append c:lag3 c:lagsnap3 c:split3 c:async3 c:lagcrash3 u:follower_snapshot@6",
    "C16": "u:storage_seq@8",
    "C27": "u:conf_text_roundtrip u:conf_text_all u:conf_text_numbers u:conf_encode u:conf_formats u:proposals_elsewhere",
    "C32": "u:raftlog_maybe_append c:stale3 c:tiny3b c:micro3 u:follower_append@2 u:probe_converges c:lag3 u:follower_snapshot@6 u:relabel@8",
    "C30": "u:elect_seq@3 u:timer_draws u:leader_clock",
    "C33": "u:start_from_storage c:crash3 c:crashsnap3 c:crashe3 c:boot3 c:lagcrash3",
    "C34": "u:lease_read@4 c:lease3 c:leasestale3 c:leasexfer3 c:leasecc3",
    "C35": "u:elect_seq@3 u:follower_append@2 u:flow_control@6 u:follower_snapshot@6 u:transfer_seq@2 c:base3 c:stale3 c:crash3 c:prevotestale3 c:cqpv3 c:mixpvstale3 c:transfer3 c:snapstale3 c:snapcc4 c:cc4p c:joint4 c:learner3 c:readstale3 c:lease3 c:tiny3b c:micro3 c:lag3 c:lagsnap3 c:split3 c:async3 u:relabel@8",
    "C36": "u:relabel@8 u:storage_seq@8 u:conf_text_numbers u:inflights_seq",
    "C37": "u:memory@8 s:storage_seq@3 s:raftlog_seq@5 s:raftlog_maybe_append@2 s:follower_append@4 s:flow_control@8 s:uncommitted_quota@4 s:follower_snapshot@8 s:read_quorum@8 s:lease_read@8 s:proposals@4 s:transfer_seq@6 s:elect_seq@8 s:conf_chain@4 s:probe_converges@4 s:step_filter@2 s:check_quorum s:leader_clock s:start_from_storage@3 s:conf_simple_joint@2 s:conf_joint s:conf_restore s:conf_state_eq s:conf_text_all s:conf_text_roundtrip s:conf_encode s:conf_formats s:tracker_votes s:tracker_quorum s:joint_ack s:majority_ack s:inflights_seq s:bootstrap_inputs s:status_private",
    "C17": "t:storage_1v1@8 t:storage_2v2@6 t:storage_3@6",
    "C29": "t:two_nodes@6 t:group_threads@2",
}
QUICK = 30
THOROUGH = 400
THOROUGH_JOBS = {}
NOT_APPLICABLE = {}
SETS = {
    "cluster": dict(sources=["arena.cc", "sim.cc", "cluster.cc"]),
    "units": dict(sources=["arena.cc", "units_main.cc", "units_quorum.cc", "units_conf.cc", "units_log.cc", "units_storage.cc", "units_elect.cc", "units_repl.cc", "units_api.cc", "units_read.cc", "units_relabel.cc", "units_bulk.cc", "units_memory.cc"]),
    "units_san": None,
    "conc": dict(sources=["conc_units.cc"], plain_sources=["conc_rt.cc"], variant="tsan", link_flags=["-ldl"]),
}

SETS["units_san"] = dict(SETS["units"], variant="asan")

ASSUME_CLUSTER = [
    "fewer than the stated number of events per history (depth and deviation budget per flavour, listed under exhaustive_within)",
    "the application follows the Ready contract: entries and hard state are persisted before messages are sent, Advance follows each Ready",
    "storage keeps what was persisted; a crash loses only what was not yet persisted",
]
ASSUME_UNIT = ["inputs and operation sequences within the bounds listed under exhaustive_within"]
ASSUMPTIONS = {k: ASSUME_UNIT for k in ("C10", "C15", "C16", "C27", "C30")}
ASSUME_CONC = [
    "threads switch at lock operations, atomic operations and thread start/exit; any other unsynchronised sharing is reported as a data race by the vector-clock detector on the same executions",
    "memory is sequentially consistent for race-free code",
    "libprotobuf's and libstdc++'s own compiled code is not instrumented (their inlined templates are)",
    "thread programs and the number of forced switches within the bounds listed under exhaustive_within",
]
ASSUMPTIONS["C17"] = ASSUMPTIONS["C29"] = ASSUME_CONC
