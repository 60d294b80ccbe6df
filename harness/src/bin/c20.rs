use vmon::*;
fn main() {
    drive(
        "C20",
        "minting, burning, re-weighting, re-labelling and moving roles, hook and ownership changes, by the minter and by others, in random order with several per block; after every step \
         every token, every member's weight, the total, the powers at past heights and what hook receivers got are compared with the model (weight = sum over held tokens). \
         Non-trivial: a role was minted during the run; distinct: the sequence of operations and outcomes differs",
        &["the cw721-base library underneath is taken as is"],
        &["roles.mint.ok", "roles.burn.ok", "weight-decrease", "weight-increase", "transfer"],
        vec![fam("roles", 5000, 80000, members::roles)],
    )
}
