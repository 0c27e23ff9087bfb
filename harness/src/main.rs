mod checks;
mod fw;

#[global_allocator]
static ALLOC: fw::Guard = fw::Guard;

fn main() {
    fw::main_with(checks::ALL);
}
