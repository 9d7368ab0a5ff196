use mcheck::pmodel::*;
use mcheck::*;

fn main() {
    run(
        Spec {
            prop: "C02",
            explanation: "as C01, judged on the window operations (open, close, test): all operation histories up to the stated depth, state graphs with nested windows, window stacks up to 20 (40) deep, sizes relative to the state and huge ones.",
            assumptions: &["buffers longer than those enumerated behave as the enumerated ones (their sizes cross every width used by the code)"],
            exhaustive: true,
            threads: 8,
            capture: true,
        },
        |tier| parser_sections(tier, WIN, &PKS),
    )
}
