use mcheck::pmodel::*;
use mcheck::*;

fn main() {
    run(
        Spec {
            prop: "C01",
            explanation: "states = nodes of the history tree plus nodes of the state graphs; a transition = one history executed from a fresh real parser, its last operation judged against the cursor model and the whole state observed by draining. All operation histories up to the stated depth over the core alphabet, the last operation from the full alphabet of reads with state-relative and huge sizes; state graphs merge histories with equal (position, window stack), two to three histories per state.",
            assumptions: &["buffers longer than those enumerated behave as the enumerated ones (their sizes cross every width used by the code)"],
            exhaustive: true,
            threads: 8,
            capture: true,
        },
        |tier| parser_sections(tier, READ, &PKS),
    )
}
