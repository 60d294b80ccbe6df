use vmon::*;
fn main() {
    drive(
        "C19",
        "a token issuer over a new or existing denom on a chain with before-send hooks: mints, burns, ordinary and forced transfers by and to everybody, allowances, freezes, allow- and denylists, hook, admin, metadata and ownership changes by owners and others; \
         after every step allowances, lists, flags, the chain's records, every balance and the supply are compared with an exact model. Non-trivial: something was minted; distinct: the sequence of operations and outcomes differs",
        &["the tokenfactory module and its before-send hook are a stand-in that enforces the token's admin and calls the hook before transfers"],
        &["minted", "minted.frozen", "mint.over-allowance", "mint.frozen", "burned", "burn.over-allowance", "sent", "sent.allowed", "send.frozen", "send.denied", "allowance", "frozen", "unfrozen", "denied", "allowed", "hook.self", "hook.other", "hook.off", "forced",
          "owner.changed", "admin.changed", "metadata", "owner-gate"],
        vec![fam("issuer", 5000, 40000, issuer::issuer)],
    )
}
