NOTES = "One Rust harness crate (mc/) with a path dependency on /repo; no hooks in /repo are needed."
NA = {}
_b = "exhaustive within the bounds listed in DESIGN.md and in the evidence file"
CLAIMED = {i: (None, _b) for i in "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24".split()}
