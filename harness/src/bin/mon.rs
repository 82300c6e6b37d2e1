use lapexmon::*;
fn main() {
    run::main(&[
        ("C02", lexers::c02),
        ("C03", lexers::c03),
        ("C05", lexers::c05),
        ("C06", front::c06),
        ("C07", front::c07),
        ("C08", front::c08),
        ("C09", front::c09),
        ("C10", tables::c10),
        ("C19", files::c19),
        ("C20", names::c20),
        ("C21", files::c21),
        ("C22", files::c22),
        ("C11", tables::c11),
        ("C23", tables::c23),
        ("C12", parsers::c12),
        ("C13", parsers::c13),
        ("C14", parsers::c14),
        ("C15", parsers::c15),
        ("C16", parsers::c16),
        ("C17", parsers::c17),
        ("C18", parsers::c18),
        ("C24", parsers::c24),
        ("C25", parsers::c25),
        ("C26", templates::c26),
        ("C27", ub::c27),
        ("C28", debug::c28),
    ]);
}
