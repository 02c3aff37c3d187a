//! monitors of the translation to the ledger's types and of the fee estimators
mod blake;
mod estimate;
mod model;
mod translate;
use common::Runner;

fn main() {
    let id = std::env::args().nth(1).unwrap_or_default();
    let r = Runner::new(&id, "a case is a batch of random outputs translated both ways, or a random transaction under a random network and multisig plan; distinct = different cases");
    r.assume("the ledger's types are those of a stand-in for cardano-multiplatform-lib (/verif/stubs), which cannot be fetched here");
    match id.as_str() {
        "C66" => {
            let cap = r.n(30, 240) as f64;
            r.phase("inputs", r.n(120000, 3000000), 8, cap, translate::inputs);
            r.phase("outputs", r.n(120000, 3000000), 8, cap, translate::outputs);
            r.phase("refusals", r.n(120000, 2000000), 8, cap, translate::refusals);
            r.phase("plans", r.n(40000, 800000), 8, cap, translate::plans);
            r.finish(&["inputs_translated", "outputs_translated", "round_trips", "assets_compared", "repeated_assets", "with_extra", "refused", "plans", "plans_refused"])
        }
        "C67" => {
            let cap = r.n(30, 240) as f64;
            r.phase("thermostat_estimator", r.n(60000, 1500000), 8, cap, estimate::assumed);
            r.phase("cml_estimator", r.n(40000, 800000), 8, cap, estimate::cml);
            r.phase("selections", r.n(60000, 1500000), 8, cap, estimate::selections);
            r.finish(&["fees_compared", "sizes_compared", "minimum_values", "outputs_with_extra", "with_metadata", "cml_steps", "selected_transactions", "selected_largest", "selected_random", "selected_thermostat", "selected_single", "selected_fee"])
        }
        _ => std::process::exit(2),
    }
}
