use vmon::*;
fn main() {
    drive(
        "C07",
        "a dao-dao-core with recording puppet modules receives every execute message from the DAO itself, its admin, nominees, past admins, enabled and disabled \
         modules, the voting module and outsiders, also nested and while paused; acceptance and the whole reported state are compared with a reference model after \
         every step. Non-trivial: the DAO was instantiated and driven; distinct: the sequence of operations and outcomes differs",
        &["cw-multi-test executes submessages, replies and rollback as on chain"],
        &["core.execute_admin_msgs.ok", "core.execute_proposal_hook.ok", "core.execute_proposal_hook.err", "mon.paused_blocked", "mon.paused_allowed",
          "core.accept_admin_nomination.ok", "core.update_proposal_modules.ok", "mon.voting_replaced", "mon.initial_callback"],
        vec![fam("core", 15000, 150000, core::run)],
    )
}
