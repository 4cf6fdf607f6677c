//! The properties and the scenarios that decide them.
use crate::plan::Plan;
use crate::rng::{Rng, mix};
use crate::run::Check;
use crate::sim::Sched;

pub mod atomic;
pub mod cli;
pub mod consistency;
pub mod delivery;
pub mod events;
pub mod export;
pub mod history;
pub mod lifecycle;
pub mod linear;
pub mod release;
pub mod shadow;
pub mod tables;
pub mod storm;
pub mod textmodel;

pub struct Scenario {
    pub name: &'static str,
    pub weight: u32,
    pub generate: fn(&mut Rng, &mut Plan),
    pub run: fn(&'static Plan) -> Check,
}
pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumption: &'static str,
    pub scenarios: &'static [Scenario],
}
pub static ALL: &[Prop] = &[
    Prop {
        id: "C01",
        rule: "two to four threads with their own and shared cursors, one to four calls each, random schedules",
        assumption: "",
        scenarios: &[Scenario { name: "linear", weight: 1, generate: linear::generate, run: linear::run }],
    },
    Prop {
        id: "C02",
        rule: "random editing histories through two to four cursors against a text and cursor model",
        assumption: "The reference model's grapheme rule is exact for the characters the generator uses.",
        scenarios: &[Scenario { name: "model", weight: 1, generate: textmodel::generate, run: textmodel::run }],
    },
    Prop {
        id: "C03",
        rule: "random operation histories over every public editing call",
        assumption: "Undo and redo are compared through the public read API.",
        scenarios: &[Scenario { name: "history", weight: 1, generate: history::generate, run: history::run }],
    },
    Prop {
        id: "C04",
        rule: "random operation histories in which any internal write action of any call may fail; a second document never sees the failed calls",
        assumption: "Faults are injected at the creation of repositories for writing, and at begin and commit of write transactions.",
        scenarios: &[Scenario { name: "atomic", weight: 1, generate: atomic::generate, run: atomic::run }],
    },
    Prop {
        id: "C05",
        rule: "random operation histories; all views compared after every call",
        assumption: "",
        scenarios: &[Scenario { name: "views", weight: 1, generate: consistency::generate, run: consistency::run }],
    },
    Prop {
        id: "C06",
        rule: "subscribing, unsubscribing, polling and editing from one to three threads, with re-entrant callbacks and long operations",
        assumption: "",
        scenarios: &[Scenario { name: "delivery", weight: 1, generate: delivery::generate, run: delivery::run }],
    },
    Prop {
        id: "C07",
        rule: "random operation histories followed by an observer that only reads events",
        assumption: "",
        scenarios: &[Scenario { name: "observer", weight: 1, generate: events::gen_observer, run: events::run_observer }],
    },
    Prop {
        id: "C08",
        rule: "one to three threads starting imports and exports, waiting, polling, cancelling and dropping their handles, random schedules",
        assumption: "",
        scenarios: &[Scenario { name: "operations", weight: 1, generate: lifecycle::gen_ops_only, run: lifecycle::run_ops_only }],
    },
    Prop {
        id: "C09",
        rule: "imports with cancellations, concurrent imports, and concurrent edits and reads from two or three threads",
        assumption: "",
        scenarios: &[
            Scenario { name: "operations", weight: 1, generate: lifecycle::gen_ops_only, run: lifecycle::run_ops_only },
            Scenario { name: "imports", weight: 2, generate: linear::gen_imports, run: linear::run },
        ],
    },
    Prop {
        id: "C10",
        rule: "two to four threads issuing every kind of call of the library, with re-entrant callbacks, cancellations, handles dropped and used anywhere, clock jumps, thread creation failures and disk errors",
        assumption: "",
        scenarios: &[Scenario { name: "storm", weight: 1, generate: storm::generate, run: storm::run }],
    },
    Prop {
        id: "C12",
        rule: "exports under disk errors and cancellation while one to three threads edit, import and read",
        assumption: "",
        scenarios: &[Scenario { name: "export", weight: 1, generate: export::generate, run: export::run }],
    },
    Prop {
        id: "C13",
        rule: "one command of the command line program per run, under disk errors, short writes, kills and losses of power at any disk operation",
        assumption: "A renamed file survives a loss of power with the content last synced; what was not synced may be lost, cut short or kept.",
        scenarios: &[Scenario { name: "cli", weight: 1, generate: cli::generate, run: cli::run }],
    },
    Prop {
        id: "C14",
        rule: "random operation histories on a highlighted document and its plain twin; and two to three threads editing, importing and reading a highlighted document under random schedules",
        assumption: "The highlighters used depend on the text of the block and the state of the previous block only.",
        scenarios: &[
            Scenario { name: "twin", weight: 2, generate: shadow::generate, run: shadow::run },
            Scenario { name: "threads", weight: 3, generate: shadow::gen_threads, run: shadow::run_threads },
        ],
    },
    Prop {
        id: "C15",
        rule: "random histories of table calls, typing inside and outside of the cells, undo and redo on a document with one table",
        assumption: "",
        scenarios: &[Scenario { name: "grid", weight: 1, generate: tables::generate, run: tables::run }],
    },
    Prop {
        id: "C11",
        rule: "one to three threads creating, cloning, using and dropping every kind of handle, with callbacks, highlighters and long operations",
        assumption: "",
        scenarios: &[Scenario { name: "release", weight: 1, generate: release::generate, run: release::run }],
    },
];
pub fn find(id: &str) -> Option<&'static Prop> {
    ALL.iter().find(|p| p.id == id)
}
pub fn generate(p: &Prop, seed: u64, scenario: Option<&str>) -> Plan {
    let mut r = Rng::new(seed);
    let sc: Vec<&Scenario> = p.scenarios.iter().filter(|s| scenario.is_none_or(|n| s.name == n)).collect();
    let k = r.weighted(&sc.iter().map(|s| s.weight).collect::<Vec<_>>());
    let mut plan = Plan {
        property: p.id.into(),
        scenario: sc[k].name.into(),
        seed,
        sched: Sched { seed: mix(seed, 7), ..Default::default() },
        ..Default::default()
    };
    (sc[k].generate)(&mut r, &mut plan);
    plan
}
pub fn run(plan: &'static Plan) -> Check {
    let p = find(&plan.property).expect("property");
    let s = p.scenarios.iter().find(|s| s.name == plan.scenario).expect("scenario");
    (s.run)(plan)
}
/// A random schedule profile for concurrent scenarios.
pub fn concurrent_sched(r: &mut Rng, s: &mut Sched, expected_steps: u64) {
    match r.below(10) {
        0..=3 => {
            s.strategy = 1;
            s.preempt_ppm = *r.pick(&[2_000, 10_000, 50_000, 200_000]);
        }
        4..=5 => {
            s.strategy = 1;
            s.preempt_ppm = *r.pick(&[0, 1_000, 5_000]);
            s.hot_ppm = *r.pick(&[20_000, 100_000, 300_000]);
        }
        _ => {
            s.strategy = 2;
            s.pct_depth = r.range(1, 6) as u32;
            s.pct_len = expected_steps * [1u64, 2, 4][r.below(3)] / 2;
        }
    }
    if r.chance(1, 3) {
        s.timeskip_ppm = *r.pick(&[10_000, 100_000, 400_000]);
    }
    if r.chance(1, 6) {
        s.spurious_ppm = *r.pick(&[10_000, 200_000]);
    }
    if r.chance(1, 8) {
        s.starve_role = *r.pick(&[3, 4]);
    }
}
