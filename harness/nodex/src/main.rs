//! monitors of the Cardano network source, against a node on the loopback network
mod node;
mod oura;
mod source;
mod address;
mod tools;
use common::Runner;

fn main() {
    let id = std::env::args().nth(1).unwrap_or_default();
    let r = Runner::new(
        &id,
        match id.as_str() {
            "C68" => "a case is one run of a fetcher program against a node that extends, switches and loses its chain and its connections; distinct = different outputs",
            "C69" => "a case is one run of the first-address program against a simulated indexer; distinct = different command lines, answers and outputs",
            _ => "a case is a consumer pulling from the network source while the node extends, switches and loses its chain and its connections; distinct = different histories",
        },
    );
    match id.as_str() {
        "C65" => {
            r.phase("following", r.n(1200, 24000), 120, r.n(25, 600) as f64, |c| source::run(c, source::Mode::Plain));
            r.phase("faults", r.n(2400, 60000), 120, r.n(40, 900) as f64, |c| source::run(c, source::Mode::Faults));
            r.phase("backlog", r.n(24, 240), 24, r.n(20, 300) as f64, |c| source::run(c, source::Mode::Backlog));
            r.phase("events", r.n(2000, 40000), 8, r.n(10, 60) as f64, source::events);
            r.finish(&[
                "blocks_delivered", "tips_delivered", "requests", "requests_from_the_genesis_parent", "requests_from_the_default_point", "nothing_new", "no_intersection", "refused_ranges",
                "faults", "connections", "reconnections", "cut_requests", "pulls_dropped", "buffers_cleared", "undecodable_blocks", "chains_switched", "stops", "invalid_points",
            ])
        }
        "C68" => {
            r.phase("network", r.n(400, 8000), 40, r.n(30, 400) as f64, |c| tools::net(c, tools::Net::Plain));
            r.phase("network-faults", r.n(600, 12000), 40, r.n(40, 500) as f64, |c| tools::net(c, tools::Net::Faults));
            r.phase("network-backlog", r.n(8, 80), 8, r.n(20, 200) as f64, |c| tools::net(c, tools::Net::Backlog));
            r.phase("chain", r.n(600, 12000), 40, r.n(40, 500) as f64, |c| oura::run(c, false, source::address()));
            r.phase("chain-losses", r.n(120, 2400), 60, r.n(30, 400) as f64, |c| oura::run(c, true, source::address()));
            r.phase("misuse", r.n(300, 3000), 30, r.n(20, 100) as f64, tools::misuse);
            r.finish(&[
                "blocks_printed", "requests", "connections", "faults", "chains_switched", "runs_from_the_default_point", "unknown_points", "undecodable_blocks", "failed_connections",
                "resumed_after_a_loss", "announcements", "awaits", "rollbacks", "runs_from_the_origin", "tcp_runs", "unix_runs", "connections_lost", "unusable_command_lines",
            ])
        }
        "C69" => {
            r.phase("known-answers", 1, 1, 30.0, address::known);
            r.phase("accounts", r.n(2500, 100000), 40, r.n(30, 600) as f64, address::run);
            r.finish(&["known_answers", "addresses_compared", "used_addresses", "unused_addresses", "failing_requests", "unusable_command_lines", "requests"])
        }
        _ => std::process::exit(2),
    }
}
