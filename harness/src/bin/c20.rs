use mcheck::pmodel::*;
use mcheck::*;

fn main() {
    run(
        Spec {
            prop: "C20",
            explanation: "as C01, judged on skip, skip_exactly, process_prefix, skip_dynamic and keyed lookup: the model reads and discards, reads the prefix and opens a window, scans entry by entry.",
            assumptions: &["buffers longer than those enumerated behave as the enumerated ones (their sizes cross every width used by the code)"],
            exhaustive: true,
            threads: 8,
            capture: true,
        },
        |tier| parser_sections(tier, EXT, &PKS),
    )
}
