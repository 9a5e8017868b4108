use gv::mem::Counting;

#[global_allocator]
static ALLOC: Counting = Counting;

fn main() {
    std::process::exit(gv::run::main());
}
