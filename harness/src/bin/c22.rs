//! C22: work per call.
use ptmon::cfg::*;
use ptmon::meter::*;
use ptmon::meter_combo;
use ptmon::runner::*;

fn main() {
    let run = || {
        ptmon::runner::main(Spec {
            giant: 0,
            id: "C22",
            combos: vec![
                meter_combo!(What::Work, u32, u64, Cfg<U4, U4, Unique>, 14, 60000),
                meter_combo!(What::Work, u32, u64, Cfg<U4, U4, Shared>, 14, 60000),
                meter_combo!(What::Work, u32, u64, Cfg<U7, U4, SyncShared>, 8, 60000),
                meter_combo!(What::Work, u32, u64, Cfg<U4, U9, Shared>, 8, 60000),
                meter_combo!(What::Work, u32, u64, Cfg<U15, U17, Unique>, 10, 90000),
                meter_combo!(What::Work, u32, u64, Tree64<Unique>, 14, 150000),
                meter_combo!(What::Work, u32, u64, Tree64<Shared>, 10, 150000),
                meter_combo!(What::Work, u32, u64, Tree64<SyncShared>, 10, 150000),
            ],
            gen,
            exec,
        })
    };
    // room enough for a runaway recursion to be measured rather than to crash
    std::thread::Builder::new().stack_size(512 << 20).spawn(run).unwrap().join().unwrap()
}
