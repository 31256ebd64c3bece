#[macro_use]
mod runner;
mod capture;
mod cfg;
mod model;
mod obj;
mod props;
mod rec;
mod rst;
mod util;

fn main() {
    if std::env::args().nth(1).as_deref() == Some("serve") {
        return props::c28::serve();
    }
    runner::main(props::registry())
}
