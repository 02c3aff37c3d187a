#![allow(dead_code)]
mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod hooks;
mod model;

use common::Runner;

fn main() {
    let id = std::env::args().nth(1).unwrap_or_default();
    if id == "child-append" {
        let a: Vec<String> = std::env::args().collect();
        c03::child(&a[2], a[3].parse().unwrap());
    }
    let rule = match id.as_str() {
        "C01" => "a case is a random history of batches on one log (record lengths biased to page and mapping boundaries, batches of 0 to 400 records, runs that fill index mappings and exceed the mapping-merge limit); every case appends records and is compared with the model record by record; distinct = different sequences of batch shapes",
        "C02" => "a case is a random history of open, append, clean close and kill (byte copy of the open directory) cycles on one log, verified completely at every opening; distinct = different histories of batch shapes and endings",
        "C03" => "a crash image is the pair of files as a kill or power loss would leave them before or after each system call of an append, opening or close, or in the middle of a copy; each distinct image is recovered with the real code, extended, killed or closed and reopened; some images become the start of the next session. distinct = different images (content hashes) plus different real-kill histories",
        "C04" => "a case is a run of 1-6 appending and 1-5 reading threads on clones of one log; every call and return is logged with an atomic clock and the history is checked offline; distinct = different sequences of which writer got which number",
        "C08" => "a case is a multi-threaded run of appends, reads, iterations, clones, drops and reopenings; repeated with guard pages and inaccessible unmapped ranges, under AddressSanitizer and under ThreadSanitizer; distinct = different runs (final contents and writer orders)",
        "C05" => "a case is a history in which each append is retried with its 1st, 2nd, ... system call failing (once or from there on) until it goes through, with other appends, kills and reopenings in between; distinct = different histories of attempts and outcomes",
        "C06" => "a case is a random program over several clones and iterators (clone, append, read, drop here or on another thread), checked against the model through the surviving handles, plus multi-threaded clone/drop/append runs; distinct = different programs",
        "C07" => "a case is a directory in some padding state opened read-only (bytes and sizes compared around the session) or a writer whose directory is copied while it appends; distinct = different histories",
        "C09" => "a case is a log whose files are cut at record boundaries, inside records, inside index entries, or extended; distinct = different (cut, log) pairs",
        _ => "",
    };
    let r = Runner::new(&id, rule);
    match id.as_str() {
        "C01" => {
            c01::run(&r);
            r.finish(&["records_appended", "records_verified", "mappings_created_in_one_log"])
        }
        "C02" => {
            c02::run(&r);
            r.finish(&["clean_closes", "kills", "records_verified_after_reopen", "lengths_killed_and_reopened"])
        }
        "C03" => {
            c03::run(&r);
            r.finish(&["crash_images_recovered", "images_kill", "images_power", "images_with_part_of_a_batch", "real_kills"])
        }
        "C04" => {
            c04::run(&r);
            r.finish(&["events_checked", "reads_overlapping_the_append_of_their_record", "reads_beyond_the_end", "appends"])
        }
        "C08" => {
            c08::run(&r);
            r.finish(&["operations", "events_checked", "reopenings"])
        }
        "C05" => {
            c05::run(&r);
            r.finish(&["failed_mmap", "failed_msync", "failed_ftruncate", "appends_failed", "batches_rejected", "kills_after_failure", "merge_boundary_runs"])
        }
        "C06" => {
            c06::run(&r);
            r.finish(&["handle_drops_with_survivors", "trims_checked", "iterators_finished_after_all_drops", "concurrent_drops"])
        }
        "C07" => {
            c07::run(&r);
            r.finish(&["readonly_sessions", "padded_states", "appends_refused", "live_copies"])
        }
        "C09" => {
            c09::run(&r);
            r.finish(&["data_cuts_rejected", "index_cuts_rejected", "extra_data_ignored", "impossible_places_rejected"])
        }
        _ => {
            eprintln!("unknown property {id}");
            std::process::exit(2)
        }
    }
}
