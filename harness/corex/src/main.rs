//! monitors of dcspark-core: values, balances, identifiers, UTxO store
mod dec;
mod ids;
mod store;
mod value;
use common::Runner;

fn main() {
    let id = std::env::args().nth(1).unwrap_or_default();
    let rule = match id.as_str() {
        "C30" => "a case is a history of insertions and removals on one UTxO store, every query compared with a plain set of outputs; distinct = different histories",
        "C31" => "a case is a tree of frozen stores and stores thawed from them, all frozen ones queried again after every step and from other threads; distinct = different histories",
        "C40" => "a case is 20 operand pairs of random units and a round of every conversion, compared with exact integer arithmetic; distinct = different operands",
        "C41" => "a case is 8 written numbers and values of random units parsed, printed, serialised and compared; distinct = different numbers",
        "C42" => "a case is a sequence of credits, debits and merged balances in random operand forms, run in three orders; distinct = different sequences",
        "C43" => "a case is a batch of numbers and identifiers printed, parsed, serialised and stepped; distinct = different batches",
        _ => "",
    };
    let r = Runner::new(&id, rule);
    match id.as_str() {
        "C30" => {
            r.phase("small", r.n(60000, 600000), 8, r.n(20, 240) as f64, |c| store::c30(c, false));
            r.phase("large", r.n(200, 3000), 8, r.n(25, 240) as f64, |c| store::c30(c, true));
            r.finish(&["insertions", "refused_insertions", "removals", "refused_removals", "states_compared", "token_queries", "tokens_vanished"])
        }
        "C31" => {
            r.phase("snapshots", r.n(15000, 200000), 8, r.n(20, 240) as f64, |c| store::c31(c, false));
            r.phase("threads", r.n(1000, 12000), 2, r.n(20, 240) as f64, |c| store::c31(c, true));
            r.finish(&["snapshots", "snapshots_checked_again", "thaws", "clones", "checks_during_concurrent_changes"])
        }
        "C40" => {
            r.phase("values", r.n(60000, 1500000), 8, r.n(30, 300) as f64, value::c40);
            r.finish(&["operations_checked", "conversions_checked"])
        }
        "C41" => {
            r.phase("values", r.n(80000, 1500000), 8, r.n(30, 300) as f64, value::c41);
            r.finish(&["texts_accepted", "texts_refused", "values_printed_and_read_back", "equal_pairs_of_different_notation"])
        }
        "C42" => {
            r.phase("balances", r.n(150000, 3000000), 8, r.n(30, 300) as f64, value::c42);
            r.finish(&["operations", "balances_merged", "sign_changes", "exactly_balanced"])
        }
        "C43" => {
            r.phase("identifiers", r.n(60000, 1000000), 8, r.n(30, 300) as f64, ids::c43);
            r.finish(&["numbers", "texts_refused", "bounds_hit", "transactions"])
        }
        _ => std::process::exit(2),
    }
}
