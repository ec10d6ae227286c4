//! Stand-in for `special-fun` in the symbolic run: each function is an opaque
//! symbol with the argument convention of the real crate's f64 implementation
//! (cephes). The replay links the real crate instead.
macro_rules! sf {
    ($($name:ident($($a:ident),*) = $sym:ident($($b:expr),*);)*) => {
        extern "C" { $(fn $sym(_: f64 $(, $a: f64)*) -> f64;)* }
        pub trait FloatSpecial: Copy + std::ops::Add<Output = Self> + std::ops::Sub<Output = Self> {
            fn logbeta(self, b: Self) -> Self {
                self.loggamma() + b.loggamma() - (self + b).loggamma()
            }
            $(fn $name(self $(, $a: Self)*) -> Self;)*
        }
        impl FloatSpecial for f64 {
            $(#[inline] fn $name(self $(, $a: f64)*) -> f64 { unsafe { $sym(self $(, $a)*) } })*
        }
    };
}
sf! {
    beta(b) = sf_beta();
    betainc(a, b) = sf_betainc();
    betainc_inv(a, b) = sf_betainc_inv();
    factorial() = sf_factorial();
    gamma() = sf_gamma();
    rgamma() = sf_rgamma();
    loggamma() = sf_loggamma();
    gammainc(a) = sf_gammainc();
    gammac(a) = sf_gammac();
    gammac_inv(a) = sf_gammac_inv();
    digamma() = sf_digamma();
    erf() = sf_erf();
    erfc() = sf_erfc();
    hyp1f1(a, b) = sf_hyp1f1();
    hyp2f1(a, b, c) = sf_hyp2f1();
    norm() = sf_norm();
    norm_inv() = sf_norm_inv();
    besselj(v) = sf_besselj();
    bessely(v) = sf_bessely();
    besseli(v) = sf_besseli();
    riemann_zeta() = sf_riemann_zeta();
    hurwitz_zeta(q) = sf_hurwitz_zeta();
}
