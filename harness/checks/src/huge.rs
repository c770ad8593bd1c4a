// Generated by tools/gen_algs.py; used as `mod huge` of a check
use tclifford::declare_algebra;

declare_algebra!(pub B63_9, [-,+,-,+,-,+,-,+,-,+,-,+,-,+,-,+,-,+,-,+,-,+,-,+,-,+,-,+,-,+,-,+,-,+,-,+,-,+,-,+,-,+,-,+,-,+,-,+,-,+,-,+,-,+,-,+,0,0,0,0,0,0,0], []);
declare_algebra!(pub B64_10, [+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,-,-,-,-,-,-,-,-,-,-,-,-,-,-,-,-,-,-,-,-,+,-,+,-,+,-,+,-,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0], []);

/// Signatures with 63 and 64 generators (sparse multivectors only)
pub fn sigs_huge() -> Vec<&'static str> {
    vec![
        "-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+0000000",
        "++++++++++++++++++++--------------------+-+-+-+-0000000000000000",
    ]
}
macro_rules! dispatch_huge {
    ($sig:expr, $f:ident [$($g:ty),*] ($($arg:expr),*)) => {
        match $sig {
            "-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+0000000" => $f::<crate::huge::B63_9 $(, $g)*>($($arg),*),
            "++++++++++++++++++++--------------------+-+-+-+-0000000000000000" => $f::<crate::huge::B64_10 $(, $g)*>($($arg),*),
            other => panic!("no such algebra: {}", other),
        }
    };
}
macro_rules! dispatch_huge_dim {
    ($sig:expr, $f:ident [$($g:ty),*] ($($arg:expr),*)) => {
        match $sig {
            "-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+0000000" => $f::<crate::huge::B63_9 $(, $g)*, 63>($($arg),*),
            "++++++++++++++++++++--------------------+-+-+-+-0000000000000000" => $f::<crate::huge::B64_10 $(, $g)*, 64>($($arg),*),
            other => panic!("no such algebra: {}", other),
        }
    };
}
