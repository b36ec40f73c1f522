//! Entry points of the analysis: every public operation of funspace on every
//! base, space and distributed space, instantiated with f64.  Never executed:
//! the MIR extractor starts from these functions.
#![allow(unused_mut, dead_code, clippy::all)]
use funspace::chebyshev::{Chebyshev, ChebyshevComposite};
use funspace::fourier::{FourierC2c, FourierR2c};
use funspace::*;
use ndarray::*;
use num_complex::Complex;
type C = Complex<f64>;
pub fn ctype(_c: C) {}

/// kernels on slices of a freshly built base
macro_rules! kernels {
    ($m:ident, $mk:expr, $p:ty, $s:ty, $($t:ident : $tt:ty),*) => {
        pub mod $m {
            use super::*;
            pub fn new(n: usize) { let _b = $mk(n); }
            pub fn sizes(n: usize) -> [usize; 3] { let b = $mk(n); [b.len_phys(), b.len_spec(), b.len_orth()] }
            pub fn coords(n: usize) -> Vec<f64> { let b = $mk(n); b.coords() }
            pub fn base_kind(n: usize) -> BaseKind { let b = $mk(n); b.base_kind() }
            pub fn transform_kind(n: usize) -> funspace::enums::TransformKind { let b = $mk(n); b.transform_kind() }
            pub fn diffmat(n: usize, k: usize) -> Array2<$s> { let b = $mk(n); b.diffmat(k) }
            pub fn diffmat_pinv(n: usize, k: usize) -> (Array2<$s>, Array2<$s>) { let b = $mk(n); b.diffmat_pinv(k) }
            pub fn stencil(n: usize) -> Array2<f64> { let b = $mk(n); b.stencil() }
            pub fn stencil_inv(n: usize) -> Array2<f64> { let b = $mk(n); b.stencil_inv() }
            pub fn laplacian(n: usize) -> Array2<f64> { let b = $mk(n); b.laplacian() }
            pub fn laplacian_pinv(n: usize) -> (Array2<f64>, Array2<f64>) { let b = $mk(n); b.laplacian_pinv() }
            pub fn forward_slice(n: usize, x: &[$p], y: &mut [$s]) { let b = $mk(n); b.forward_slice(x, y) }
            pub fn backward_slice(n: usize, x: &[$s], y: &mut [$p]) { let b = $mk(n); b.backward_slice(x, y) }
            $(pub mod $t {
                use super::*;
                pub fn to_ortho_slice(n: usize, x: &[$tt], y: &mut [$tt]) { let b = $mk(n); b.to_ortho_slice(x, y) }
                pub fn from_ortho_slice(n: usize, x: &[$tt], y: &mut [$tt]) { let b = $mk(n); b.from_ortho_slice(x, y) }
                pub fn gradient_slice(n: usize, x: &[$tt], y: &mut [$tt], k: usize) { let b = $mk(n); b.gradient_slice(x, y, k) }
            })*
        }
    };
}
pub mod k {
    use super::*;
    kernels!(cheb, Chebyshev::<f64>::new, f64, f64, r: f64, c: C);
    kernels!(dirichlet, ChebyshevComposite::<f64>::dirichlet, f64, f64, r: f64, c: C);
    kernels!(neumann, ChebyshevComposite::<f64>::neumann, f64, f64, r: f64, c: C);
    kernels!(dirichlet_neumann, ChebyshevComposite::<f64>::dirichlet_neumann, f64, f64, r: f64, c: C);
    kernels!(biharmonic_a, ChebyshevComposite::<f64>::biharmonic_a, f64, f64, r: f64, c: C);
    kernels!(biharmonic_b, ChebyshevComposite::<f64>::biharmonic_b, f64, f64, r: f64, c: C);
    kernels!(r2c, FourierR2c::<f64>::new, f64, C, c: C);
    kernels!(c2c, FourierC2c::<f64>::new, C, C, c: C);
}
/// the same kernels through the umbrella types and the crate-level constructors
pub mod u {
    use super::*;
    kernels!(cheb, chebyshev::<f64>, f64, f64, r: f64, c: C);
    kernels!(dirichlet, cheb_dirichlet::<f64>, f64, f64, r: f64, c: C);
    kernels!(neumann, cheb_neumann::<f64>, f64, f64, r: f64, c: C);
    kernels!(dirichlet_neumann, cheb_dirichlet_neumann::<f64>, f64, f64, r: f64, c: C);
    kernels!(biharmonic_a, cheb_biharmonic_a::<f64>, f64, f64, r: f64, c: C);
    kernels!(biharmonic_b, cheb_biharmonic_b::<f64>, f64, f64, r: f64, c: C);
    kernels!(r2c, fourier_r2c::<f64>, f64, C, c: C);
    kernels!(c2c, fourier_c2c::<f64>, C, C, c: C);
}

pub mod stat {
    use super::*;
    pub fn cheb_nodes(n: usize) -> Vec<f64> { Chebyshev::<f64>::nodes(n) }
    pub fn cheb_dmat(n: usize, k: usize) -> Array2<f64> { Chebyshev::<f64>::_dmat(n, k) }
    pub fn cheb_pinv(n: usize, k: usize) -> Array2<f64> { Chebyshev::<f64>::_pinv(n, k) }
    pub fn cheb_pinv_eye(n: usize, k: usize) -> Array2<f64> { Chebyshev::<f64>::_pinv_eye(n, k) }
    pub fn r2c_nodes(n: usize) -> Vec<f64> { FourierR2c::<f64>::nodes(n) }
    pub fn c2c_nodes(n: usize) -> Vec<f64> { FourierC2c::<f64>::nodes(n) }
    pub fn r2c_wavenumber(n: usize) -> Vec<C> { FourierR2c::<f64>::wavenumber(n) }
    pub fn c2c_wavenumber(n: usize) -> Vec<C> { FourierC2c::<f64>::wavenumber(n) }
}

pub mod util {
    use super::*;
    use funspace::utils::*;
    pub fn eq_slice(a: &[f64], b: &[f64]) { approx_eq(a, b) }
    pub fn eq_slice_c(a: &[C], b: &[C]) { approx_eq_complex(a, b) }
    pub fn eq_nd(a: &Array2<f64>, b: &Array2<f64>) { approx_eq_ndarray(a, b) }
    pub fn eq_nd_c(a: &Array2<C>, b: &Array2<C>) { approx_eq_complex_ndarray(a, b) }
    pub fn resized(a: &Array2<f64>, size: usize) -> (Array2<f64>, Array2<f64>) { (array_resized_axis(a, size, 0), array_resized_axis(a, size, 1)) }
    pub fn check0(a: &Array2<f64>, size: usize) { check_array_axis(a, size, 0, "") }
    pub fn check1(a: &Array2<f64>, size: usize) { check_array_axis(a, size, 1, "") }
}

/// array drivers of the base traits along a fixed axis of a fixed-rank array
macro_rules! drivers {
    ($m:ident, $b:ty, $p:ty, $s:ty, $d:ident, $ax:expr) => {
        pub mod $m {
            use super::*;
            type B = $b;
            pub fn forward(b: &B, x: &$d<$p>) -> $d<$s> { b.forward(x, $ax) }
            pub fn forward_inplace(b: &B, x: &$d<$p>, y: &mut $d<$s>) { b.forward_inplace(x, y, $ax) }
            pub fn forward_par(b: &B, x: &$d<$p>) -> $d<$s> { b.forward_par(x, $ax) }
            pub fn forward_inplace_par(b: &B, x: &$d<$p>, y: &mut $d<$s>) { b.forward_inplace_par(x, y, $ax) }
            pub fn backward(b: &B, x: &$d<$s>) -> $d<$p> { b.backward(x, $ax) }
            pub fn backward_inplace(b: &B, x: &$d<$s>, y: &mut $d<$p>) { b.backward_inplace(x, y, $ax) }
            pub fn backward_par(b: &B, x: &$d<$s>) -> $d<$p> { b.backward_par(x, $ax) }
            pub fn backward_inplace_par(b: &B, x: &$d<$s>, y: &mut $d<$p>) { b.backward_inplace_par(x, y, $ax) }
            pub fn to_ortho(b: &B, x: &$d<$s>) -> $d<$s> { b.to_ortho(x, $ax) }
            pub fn to_ortho_inplace(b: &B, x: &$d<$s>, y: &mut $d<$s>) { b.to_ortho_inplace(x, y, $ax) }
            pub fn to_ortho_par(b: &B, x: &$d<$s>) -> $d<$s> { b.to_ortho_par(x, $ax) }
            pub fn to_ortho_inplace_par(b: &B, x: &$d<$s>, y: &mut $d<$s>) { b.to_ortho_inplace_par(x, y, $ax) }
            pub fn from_ortho(b: &B, x: &$d<$s>) -> $d<$s> { b.from_ortho(x, $ax) }
            pub fn from_ortho_inplace(b: &B, x: &$d<$s>, y: &mut $d<$s>) { b.from_ortho_inplace(x, y, $ax) }
            pub fn from_ortho_par(b: &B, x: &$d<$s>) -> $d<$s> { b.from_ortho_par(x, $ax) }
            pub fn from_ortho_inplace_par(b: &B, x: &$d<$s>, y: &mut $d<$s>) { b.from_ortho_inplace_par(x, y, $ax) }
            pub fn gradient(b: &B, x: &$d<$s>, k: usize) -> $d<$s> { b.gradient(x, k, $ax) }
            pub fn gradient_inplace(b: &B, x: &$d<$s>, y: &mut $d<$s>, k: usize) { b.gradient_inplace(x, y, k, $ax) }
            pub fn gradient_par(b: &B, x: &$d<$s>, k: usize) -> $d<$s> { b.gradient_par(x, k, $ax) }
            pub fn gradient_inplace_par(b: &B, x: &$d<$s>, y: &mut $d<$s>, k: usize) { b.gradient_inplace_par(x, y, k, $ax) }
        }
    };
}
macro_rules! all_drivers {
    ($m:ident, $b:ty, $p:ty, $s:ty) => {
        pub mod $m {
            use super::*;
            drivers!(d1a0, $b, $p, $s, Array1, 0);
            drivers!(d2a0, $b, $p, $s, Array2, 0);
            drivers!(d2a1, $b, $p, $s, Array2, 1);
            drivers!(d3a0, $b, $p, $s, Array3, 0);
            drivers!(d3a1, $b, $p, $s, Array3, 1);
            drivers!(d3a2, $b, $p, $s, Array3, 2);
        }
    };
}
pub mod a {
    use super::*;
    all_drivers!(r2r, BaseR2r<f64>, f64, f64);
    all_drivers!(r2c, BaseR2c<f64>, f64, C);
    all_drivers!(c2c, BaseC2c<f64>, C, C);
    all_drivers!(cheb, Chebyshev<f64>, f64, f64);
    all_drivers!(compo, ChebyshevComposite<f64>, f64, f64);
    all_drivers!(fr2c, FourierR2c<f64>, f64, C);
    all_drivers!(fc2c, FourierC2c<f64>, C, C);
}

macro_rules! space_ops {
    ($s:ty, $n:expr, $p:ty, $c:ty, $d:ident $(, $lt:lifetime)?) => {
        type S$(<$lt>)? = $s;
        pub fn shape_physical$(<$lt>)?(b: &S) -> [usize; $n] { b.shape_physical() }
        pub fn shape_spectral$(<$lt>)?(b: &S) -> [usize; $n] { b.shape_spectral() }
        pub fn shape_spectral_ortho$(<$lt>)?(b: &S) -> [usize; $n] { b.shape_spectral_ortho() }
        pub fn ndarray_physical$(<$lt>)?(b: &S) -> $d<$p> { b.ndarray_physical() }
        pub fn ndarray_spectral$(<$lt>)?(b: &S) -> $d<$c> { b.ndarray_spectral() }
        pub fn ndarray_from_shape$(<$lt>)?(b: &S, s: [usize; $n]) -> $d<f64> { b.ndarray_from_shape(s) }
        pub fn base_kind$(<$lt>)?(b: &S, axis: usize) -> BaseKind { b.base_kind(axis) }
        pub fn transform_kind$(<$lt>)?(b: &S, axis: usize) -> funspace::enums::TransformKind { b.transform_kind(axis) }
        pub fn coords_axis$(<$lt>)?(b: &S, axis: usize) -> Array1<f64> { b.coords_axis(axis) }
        pub fn coords$(<$lt>)?(b: &S) -> [Array1<f64>; $n] { b.coords() }
        pub fn stencil$(<$lt>)?(b: &S, axis: usize) -> Array2<f64> { b.stencil(axis) }
        pub fn stencil_inv$(<$lt>)?(b: &S, axis: usize) -> Array2<f64> { b.stencil_inv(axis) }
        pub fn laplacian$(<$lt>)?(b: &S, axis: usize) -> Array2<f64> { b.laplacian(axis) }
        pub fn laplacian_pinv$(<$lt>)?(b: &S, axis: usize) -> (Array2<f64>, Array2<f64>) { b.laplacian_pinv(axis) }
        pub fn forward$(<$lt>)?(b: &S, x: &$d<$p>) -> $d<$c> { b.forward(x) }
        pub fn forward_inplace$(<$lt>)?(b: &S, x: &$d<$p>, y: &mut $d<$c>) { b.forward_inplace(x, y) }
        pub fn forward_par$(<$lt>)?(b: &S, x: &$d<$p>) -> $d<$c> { b.forward_par(x) }
        pub fn forward_inplace_par$(<$lt>)?(b: &S, x: &$d<$p>, y: &mut $d<$c>) { b.forward_inplace_par(x, y) }
        pub fn backward$(<$lt>)?(b: &S, x: &$d<$c>) -> $d<$p> { b.backward(x) }
        pub fn backward_inplace$(<$lt>)?(b: &S, x: &$d<$c>, y: &mut $d<$p>) { b.backward_inplace(x, y) }
        pub fn backward_par$(<$lt>)?(b: &S, x: &$d<$c>) -> $d<$p> { b.backward_par(x) }
        pub fn backward_inplace_par$(<$lt>)?(b: &S, x: &$d<$c>, y: &mut $d<$p>) { b.backward_inplace_par(x, y) }
        pub fn to_ortho$(<$lt>)?(b: &S, x: &$d<$c>) -> $d<$c> { b.to_ortho(x) }
        pub fn to_ortho_inplace$(<$lt>)?(b: &S, x: &$d<$c>, y: &mut $d<$c>) { b.to_ortho_inplace(x, y) }
        pub fn to_ortho_par$(<$lt>)?(b: &S, x: &$d<$c>) -> $d<$c> { b.to_ortho_par(x) }
        pub fn to_ortho_inplace_par$(<$lt>)?(b: &S, x: &$d<$c>, y: &mut $d<$c>) { b.to_ortho_inplace_par(x, y) }
        pub fn from_ortho$(<$lt>)?(b: &S, x: &$d<$c>) -> $d<$c> { b.from_ortho(x) }
        pub fn from_ortho_inplace$(<$lt>)?(b: &S, x: &$d<$c>, y: &mut $d<$c>) { b.from_ortho_inplace(x, y) }
        pub fn from_ortho_par$(<$lt>)?(b: &S, x: &$d<$c>) -> $d<$c> { b.from_ortho_par(x) }
        pub fn from_ortho_inplace_par$(<$lt>)?(b: &S, x: &$d<$c>, y: &mut $d<$c>) { b.from_ortho_inplace_par(x, y) }
        pub fn gradient$(<$lt>)?(b: &S, x: &$d<$c>, k: [usize; $n]) -> $d<$c> { b.gradient(x, k, None) }
        pub fn gradient_scaled$(<$lt>)?(b: &S, x: &$d<$c>, k: [usize; $n], s: [f64; $n]) -> $d<$c> { b.gradient(x, k, Some(s)) }
        pub fn gradient_par$(<$lt>)?(b: &S, x: &$d<$c>, k: [usize; $n]) -> $d<$c> { b.gradient_par(x, k, None) }
        pub fn gradient_par_scaled$(<$lt>)?(b: &S, x: &$d<$c>, k: [usize; $n], s: [f64; $n]) -> $d<$c> { b.gradient_par(x, k, Some(s)) }
    };
}
macro_rules! space1 {
    ($m:ident, $b0:ident, $p:ty, $c:ty) => {
        pub mod $m {
            use super::*;
            pub fn new(a: &$b0<f64>) -> S { Space1::new(a) }
            space_ops!(Space1<$b0<f64>>, 1, $p, $c, Array1);
        }
    };
}
macro_rules! space2 {
    ($m:ident, $b0:ident, $b1:ident, $p:ty, $c:ty) => {
        pub mod $m {
            use super::*;
            pub fn new(a: &$b0<f64>, b: &$b1<f64>) -> S { Space2::new(a, b) }
            space_ops!(Space2<$b0<f64>, $b1<f64>>, 2, $p, $c, Array2);
        }
    };
}
macro_rules! space3 {
    ($m:ident, $b0:ident, $b1:ident, $b2:ident, $p:ty, $c:ty) => {
        pub mod $m {
            use super::*;
            pub fn new(a: &$b0<f64>, b: &$b1<f64>, c: &$b2<f64>) -> S { Space3::new(a, b, c) }
            space_ops!(Space3<$b0<f64>, $b1<f64>, $b2<f64>>, 3, $p, $c, Array3);
        }
    };
}
pub mod s {
    use super::*;
    space1!(s1_r2r, BaseR2r, f64, f64);
    space1!(s1_r2c, BaseR2c, f64, C);
    space1!(s1_c2c, BaseC2c, C, C);
    space2!(s2_rr, BaseR2r, BaseR2r, f64, f64);
    space2!(s2_fr, BaseR2c, BaseR2r, f64, C);
    space2!(s2_cf, BaseC2c, BaseR2c, f64, C);
    space2!(s2_cc, BaseC2c, BaseC2c, C, C);
    space3!(s3_rrr, BaseR2r, BaseR2r, BaseR2r, f64, f64);
    space3!(s3_frr, BaseR2c, BaseR2r, BaseR2r, f64, C);
    space3!(s3_cfr, BaseC2c, BaseR2c, BaseR2r, f64, C);
    space3!(s3_ccf, BaseC2c, BaseC2c, BaseR2c, f64, C);
    space3!(s3_ccc, BaseC2c, BaseC2c, BaseC2c, C, C);
}

macro_rules! space2mpi {
    ($m:ident, $b0:ident, $b1:ident, $p:ty, $c:ty) => {
        pub mod $m {
            use super::*;
            use funspace::space_mpi::*;
            space_ops!(Space2Mpi<'a, $b0<f64>, $b1<f64>>, 2, $p, $c, Array2, 'a);
            pub fn new<'a>(a: &$b0<f64>, b: &$b1<f64>, u: &'a Universe) -> S<'a> { Space2Mpi::new(a, b, u) }
            pub fn reg<'a>(a: &$b0<f64>, b: &$b1<f64>, u: &'a Universe, s: [usize; 2]) -> ([usize; 2], [usize; 2], [usize; 2]) {
                let sp: S = Space2Mpi::new(a, b, u);
                let d = sp.get_decomp_from_global_shape(&s);
                (d.get_global_shape(), d.get_x_pencil_shape(), d.get_y_pencil_shape())
            }
            pub fn get_nrank(b: &S) -> usize { b.get_nrank() }
            pub fn get_nprocs(b: &S) -> usize { b.get_nprocs() }
            pub fn shape_physical_x_pen(b: &S) -> [usize; 2] { b.shape_physical_x_pen() }
            pub fn shape_physical_y_pen(b: &S) -> [usize; 2] { b.shape_physical_y_pen() }
            pub fn shape_spectral_x_pen(b: &S) -> [usize; 2] { b.shape_spectral_x_pen() }
            pub fn shape_spectral_y_pen(b: &S) -> [usize; 2] { b.shape_spectral_y_pen() }
            pub fn ndarray_physical_x_pen(b: &S) -> Array2<$p> { b.ndarray_physical_x_pen() }
            pub fn ndarray_physical_y_pen(b: &S) -> Array2<$p> { b.ndarray_physical_y_pen() }
            pub fn ndarray_spectral_x_pen(b: &S) -> Array2<$c> { b.ndarray_spectral_x_pen() }
            pub fn ndarray_spectral_y_pen(b: &S) -> Array2<$c> { b.ndarray_spectral_y_pen() }
            pub fn to_ortho_mpi(b: &S, x: &Array2<$c>) -> Array2<$c> { b.to_ortho_mpi(x) }
            pub fn to_ortho_inplace_mpi(b: &S, x: &Array2<$c>, y: &mut Array2<$c>) { b.to_ortho_inplace_mpi(x, y) }
            pub fn from_ortho_mpi(b: &S, x: &Array2<$c>) -> Array2<$c> { b.from_ortho_mpi(x) }
            pub fn from_ortho_inplace_mpi(b: &S, x: &Array2<$c>, y: &mut Array2<$c>) { b.from_ortho_inplace_mpi(x, y) }
            pub fn gradient_mpi(b: &S, x: &Array2<$c>, k: [usize; 2]) -> Array2<$c> { b.gradient_mpi(x, k, None) }
            pub fn gradient_mpi_scaled(b: &S, x: &Array2<$c>, k: [usize; 2], s: [f64; 2]) -> Array2<$c> { b.gradient_mpi(x, k, Some(s)) }
            pub fn forward_mpi(b: &S, x: &Array2<$p>) -> Array2<$c> { b.forward_mpi(x) }
            pub fn forward_inplace_mpi(b: &S, x: &Array2<$p>, y: &mut Array2<$c>) { b.forward_inplace_mpi(x, y) }
            pub fn backward_mpi(b: &S, x: &Array2<$c>) -> Array2<$p> { b.backward_mpi(x) }
            pub fn backward_inplace_mpi(b: &S, x: &Array2<$c>, y: &mut Array2<$p>) { b.backward_inplace_mpi(x, y) }
            pub fn gather_from_x_pencil_phys(b: &S, x: &Array2<$p>) { b.gather_from_x_pencil_phys(x) }
            pub fn gather_from_y_pencil_phys(b: &S, x: &Array2<$p>) { b.gather_from_y_pencil_phys(x) }
            pub fn gather_from_x_pencil_spec(b: &S, x: &Array2<$c>) { b.gather_from_x_pencil_spec(x) }
            pub fn gather_from_y_pencil_spec(b: &S, x: &Array2<$c>) { b.gather_from_y_pencil_spec(x) }
            pub fn gather_from_x_pencil_phys_root(b: &S, x: &Array2<$p>, y: &mut Array2<$p>) { b.gather_from_x_pencil_phys_root(x, y) }
            pub fn gather_from_y_pencil_phys_root(b: &S, x: &Array2<$p>, y: &mut Array2<$p>) { b.gather_from_y_pencil_phys_root(x, y) }
            pub fn gather_from_x_pencil_spec_root(b: &S, x: &Array2<$c>, y: &mut Array2<$c>) { b.gather_from_x_pencil_spec_root(x, y) }
            pub fn gather_from_y_pencil_spec_root(b: &S, x: &Array2<$c>, y: &mut Array2<$c>) { b.gather_from_y_pencil_spec_root(x, y) }
            pub fn all_gather_from_x_pencil_phys(b: &S, x: &Array2<$p>, y: &mut Array2<$p>) { b.all_gather_from_x_pencil_phys(x, y) }
            pub fn all_gather_from_y_pencil_phys(b: &S, x: &Array2<$p>, y: &mut Array2<$p>) { b.all_gather_from_y_pencil_phys(x, y) }
            pub fn all_gather_from_x_pencil_spec(b: &S, x: &Array2<$c>, y: &mut Array2<$c>) { b.all_gather_from_x_pencil_spec(x, y) }
            pub fn all_gather_from_y_pencil_spec(b: &S, x: &Array2<$c>, y: &mut Array2<$c>) { b.all_gather_from_y_pencil_spec(x, y) }
            pub fn scatter_to_x_pencil_phys(b: &S, y: &mut Array2<$p>) { b.scatter_to_x_pencil_phys(y) }
            pub fn scatter_to_y_pencil_phys(b: &S, y: &mut Array2<$p>) { b.scatter_to_y_pencil_phys(y) }
            pub fn scatter_to_x_pencil_spec(b: &S, y: &mut Array2<$c>) { b.scatter_to_x_pencil_spec(y) }
            pub fn scatter_to_y_pencil_spec(b: &S, y: &mut Array2<$c>) { b.scatter_to_y_pencil_spec(y) }
            pub fn scatter_to_x_pencil_phys_root(b: &S, x: &Array2<$p>, y: &mut Array2<$p>) { b.scatter_to_x_pencil_phys_root(x, y) }
            pub fn scatter_to_y_pencil_phys_root(b: &S, x: &Array2<$p>, y: &mut Array2<$p>) { b.scatter_to_y_pencil_phys_root(x, y) }
            pub fn scatter_to_x_pencil_spec_root(b: &S, x: &Array2<$c>, y: &mut Array2<$c>) { b.scatter_to_x_pencil_spec_root(x, y) }
            pub fn scatter_to_y_pencil_spec_root(b: &S, x: &Array2<$c>, y: &mut Array2<$c>) { b.scatter_to_y_pencil_spec_root(x, y) }
            pub fn transpose_x_to_y_phys(b: &S, x: &Array2<$p>, y: &mut Array2<$p>) { b.transpose_x_to_y_phys(x, y) }
            pub fn transpose_y_to_x_phys(b: &S, x: &Array2<$p>, y: &mut Array2<$p>) { b.transpose_y_to_x_phys(x, y) }
            pub fn transpose_x_to_y_spec(b: &S, x: &Array2<$c>, y: &mut Array2<$c>) { b.transpose_x_to_y_spec(x, y) }
            pub fn transpose_y_to_x_spec(b: &S, x: &Array2<$c>, y: &mut Array2<$c>) { b.transpose_y_to_x_spec(x, y) }
        }
    };
}
pub mod m {
    use super::*;
    space2mpi!(rr, BaseR2r, BaseR2r, f64, f64);
    space2mpi!(fr, BaseR2c, BaseR2r, f64, C);
    space2mpi!(cf, BaseC2c, BaseR2c, f64, C);
    space2mpi!(cc, BaseC2c, BaseC2c, C, C);
}
pub mod d {
    use super::*;
    use funspace::space_mpi::*;
    use funspace::space_mpi::decomp2d::Distribution;
    type D<'a> = Decomp2d<'a>;
    pub fn dist_new0(g: [usize; 2], np: usize, r: usize) -> Distribution<2> { Distribution::<2>::new(g, np, r, 0) }
    pub fn dist_new1(g: [usize; 2], np: usize, r: usize) -> Distribution<2> { Distribution::<2>::new(g, np, r, 1) }
    pub fn dist_length(d: &Distribution<2>) -> usize { d.length() }
    pub fn dist_check(d: &Distribution<2>, x: &Array2<f64>) { d.check_shape(x) }
    pub fn counts_all_gather(d: &Distribution<2>) -> (Vec<i32>, Vec<i32>) { d.get_counts_all_gather() }
    pub fn counts_all_to_all(d: &Distribution<2>, e: &Distribution<2>) -> (Vec<i32>, Vec<i32>) { d.get_counts_all_to_all(e) }
    pub fn split(d: &Distribution<2>, x: &Array2<f64>) -> Array2<f64> { d.split_array(x) }
    pub fn split_inplace(d: &Distribution<2>, x: &Array2<f64>, y: &mut Array2<f64>) { d.split_array_inplace(x, y) }
    pub fn new<'a>(u: &'a Universe, g: [usize; 2]) -> D<'a> { Decomp2d::new(u, g) }
    pub fn global_shape(d: &D) -> [usize; 2] { d.get_global_shape() }
    pub fn x_shape(d: &D) -> [usize; 2] { d.get_x_pencil_shape() }
    pub fn y_shape(d: &D) -> [usize; 2] { d.get_y_pencil_shape() }
    pub fn split_x(d: &D, x: &Array2<f64>) -> Array2<f64> { d.split_array_x_pencil(x) }
    pub fn split_y(d: &D, x: &Array2<f64>) -> Array2<f64> { d.split_array_y_pencil(x) }
    pub fn transpose_x_to_y(d: &D, x: &Array2<f64>, y: &mut Array2<f64>) { d.transpose_x_to_y(x, y) }
    pub fn transpose_y_to_x(d: &D, x: &Array2<f64>, y: &mut Array2<f64>) { d.transpose_y_to_x(x, y) }
    pub fn gather_x(d: &D, x: &Array2<f64>) { d.gather_x(x) }
    pub fn gather_y(d: &D, x: &Array2<f64>) { d.gather_y(x) }
    pub fn gather_x_root(d: &D, x: &Array2<f64>) -> Array2<f64> { d.gather_x_root(x) }
    pub fn gather_y_root(d: &D, x: &Array2<f64>) -> Array2<f64> { d.gather_y_root(x) }
    pub fn gather_x_inplace_root(d: &D, x: &Array2<f64>, y: &mut Array2<f64>) { d.gather_x_inplace_root(x, y) }
    pub fn gather_y_inplace_root(d: &D, x: &Array2<f64>, y: &mut Array2<f64>) { d.gather_y_inplace_root(x, y) }
    pub fn all_gather_x(d: &D, x: &Array2<f64>, y: &mut Array2<f64>) { d.all_gather_x(x, y) }
    pub fn all_gather_y(d: &D, x: &Array2<f64>, y: &mut Array2<f64>) { d.all_gather_y(x, y) }
    pub fn scatter_x(d: &D) -> Array2<f64> { d.scatter_x() }
    pub fn scatter_y(d: &D) -> Array2<f64> { d.scatter_y() }
    pub fn scatter_x_inplace(d: &D, y: &mut Array2<f64>) { d.scatter_x_inplace(y) }
    pub fn scatter_y_inplace(d: &D, y: &mut Array2<f64>) { d.scatter_y_inplace(y) }
    pub fn scatter_x_root(d: &D, x: &Array2<f64>) -> Array2<f64> { d.scatter_x_root(x) }
    pub fn scatter_y_root(d: &D, x: &Array2<f64>) -> Array2<f64> { d.scatter_y_root(x) }
    pub fn scatter_x_inplace_root(d: &D, x: &Array2<f64>, y: &mut Array2<f64>) { d.scatter_x_inplace_root(x, y) }
    pub fn scatter_y_inplace_root(d: &D, x: &Array2<f64>, y: &mut Array2<f64>) { d.scatter_y_inplace_root(x, y) }
    pub fn broadcast(u: &Universe, x: &mut f64) { broadcast_scalar(u, x) }
    pub fn gsum(u: &Universe, x: &f64, y: &mut f64) { gather_sum(u, x, y) }
    pub fn agsum(u: &Universe, x: &f64, y: &mut f64) { all_gather_sum(u, x, y) }
    pub fn handler_new<'a>(u: &'a Universe) -> DecompHandler<'a> { DecompHandler::new(u) }
    pub fn handler_insert<'a>(h: &mut DecompHandler<'a>, d: Decomp2d<'a>) { h.insert(d) }
    pub fn handler_get<'a>(h: &'a DecompHandler<'a>, s: [usize; 2]) -> &'a Decomp2d<'a> { h.get_decomp_from_global_shape(&s) }
}
