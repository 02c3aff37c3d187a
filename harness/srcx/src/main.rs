//! monitors of the block sources and their helpers
mod chain;
mod points;
mod sources;
use common::Runner;

fn main() {
    let id = std::env::args().nth(1).unwrap_or_default();
    let rule = match id.as_str() {
        "C60" => "a case is a block tree fed through the confirmed-block source to a consumer that pulls from what it took last, with stalls, dropped pulls, failures, repeated blocks and restarts; distinct = different histories",
        "C61" => "a case is a block tree fed through the fork-handling source to a consumer replaying its events; distinct = different histories",
        "C62" => "a case is an era and about 60 slots; distinct = different eras",
        "C63" => "a case is a point or an optional event; distinct = different points",
        _ => "",
    };
    let r = Runner::new(&id, rule);
    match id.as_str() {
        "C60" => {
            r.phase("consumer", r.n(20000, 400000), 8, r.n(30, 240) as f64, |c| sources::confirmed(c, false));
            r.phase("restarting_consumer", r.n(4000, 60000), 8, r.n(30, 240) as f64, |c| sources::confirmed(c, true));
            r.phase("over_a_node", r.n(20000, 400000), 8, r.n(30, 240) as f64, sources::confirmed_of_node);
            r.finish(&["blocks_forgotten", "blocks_kept", "reorganisations", "chains_caught_up", "troubles_of_a_node", "restarts_over_a_node", "blocks_delivered", "blocks_off_the_longest_chain", "repeated_deliveries", "dropped_pulls", "errors_passed_on", "tips_passed_on", "restarts", "restarts_before_a_block_was_taken"])
        }
        "C61" => {
            r.phase("replay", r.n(20000, 400000), 8, r.n(30, 240) as f64, |c| sources::forks(c, false));
            r.phase("restarting", r.n(4000, 60000), 8, r.n(30, 240) as f64, |c| sources::forks(c, true));
            r.phase("over_a_node", r.n(20000, 400000), 8, r.n(30, 240) as f64, sources::forks_of_node);
            r.finish(&["blocks_forgotten", "blocks_kept", "reorganisations", "chains_caught_up", "troubles_of_a_node", "rollbacks_of_a_node", "blocks_delivered", "rollbacks", "rollbacks_to_the_start", "known_blocks_ignored", "dropped_pulls", "errors_passed_on", "tips_passed_on", "restarts"])
        }
        "C62" => {
            r.phase("presets", 8, 1, 10.0, points::presets);
            r.phase("eras", r.n(100000, 2000000), 8, r.n(20, 120) as f64, points::eras);
            r.finish(&["slots", "slots_before_the_era", "byron_slots", "preset_parameters", "epoch_boundaries"])
        }
        "C63" => {
            r.phase("points", r.n(400000, 8000000), 8, r.n(20, 120) as f64, points::points);
            r.finish(&["valid_hashes", "invalid_hashes", "origins", "one_shot_sources", "json"])
        }
        _ => std::process::exit(2),
    }
}
