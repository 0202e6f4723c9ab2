pub enum Out1<A> { A(A) }
pub enum Out2<A, B> { A(A), B(B) }
pub enum Out3<A, B, C> { A(A), B(B), C(C) }
pub enum Out4<A, B, C, D> { A(A), B(B), C(C), D(D) }
pub enum Out5<A, B, C, D, E> { A(A), B(B), C(C), D(D), E(E) }
pub enum Out6<A, B, C, D, E, F> { A(A), B(B), C(C), D(D), E(E), F(F) }
pub enum Out7<A, B, C, D, E, F, G> { A(A), B(B), C(C), D(D), E(E), F(F), G(G) }
pub enum Out8<A, B, C, D, E, F, G, H> { A(A), B(B), C(C), D(D), E(E), F(F), G(G), H(H) }

/// `tokio::select!`: branches are polled in rotation from a start the environment chooses
/// (`verif::select_first`), as tokio picks it at random; `biased;` starts at the first.
#[macro_export]
macro_rules! select {
    (biased; $($t:tt)*) => { $crate::__select_parse!(@ (biased) () $($t)*) };
    ($($t:tt)*) => { $crate::__select_parse!(@ (fair) () $($t)*) };
}

#[doc(hidden)]
#[macro_export]
macro_rules! __select_parse {
    (@ ($m:ident) ($($acc:tt)*)) => { $crate::__select_emit!($m $($acc)* [else (unreachable!("all branches are disabled and there is no else branch"))]) };
    (@ ($m:ident) ($($acc:tt)*) else => $h:expr $(,)?) => { $crate::__select_emit!($m $($acc)* [else ($h)]) };
    (@ ($m:ident) ($($acc:tt)*) $p:pat = $f:expr, if $c:expr => $h:block, $($r:tt)*) => { $crate::__select_parse!(@ ($m) ($($acc)* [($p) ($f) ($c) ($h)]) $($r)*) };
    (@ ($m:ident) ($($acc:tt)*) $p:pat = $f:expr, if $c:expr => $h:block $($r:tt)*) => { $crate::__select_parse!(@ ($m) ($($acc)* [($p) ($f) ($c) ($h)]) $($r)*) };
    (@ ($m:ident) ($($acc:tt)*) $p:pat = $f:expr, if $c:expr => $h:expr, $($r:tt)*) => { $crate::__select_parse!(@ ($m) ($($acc)* [($p) ($f) ($c) ($h)]) $($r)*) };
    (@ ($m:ident) ($($acc:tt)*) $p:pat = $f:expr, if $c:expr => $h:expr) => { $crate::__select_parse!(@ ($m) ($($acc)* [($p) ($f) ($c) ($h)])) };
    (@ ($m:ident) ($($acc:tt)*) $p:pat = $f:expr => $h:block, $($r:tt)*) => { $crate::__select_parse!(@ ($m) ($($acc)* [($p) ($f) (true) ($h)]) $($r)*) };
    (@ ($m:ident) ($($acc:tt)*) $p:pat = $f:expr => $h:block $($r:tt)*) => { $crate::__select_parse!(@ ($m) ($($acc)* [($p) ($f) (true) ($h)]) $($r)*) };
    (@ ($m:ident) ($($acc:tt)*) $p:pat = $f:expr => $h:expr, $($r:tt)*) => { $crate::__select_parse!(@ ($m) ($($acc)* [($p) ($f) (true) ($h)]) $($r)*) };
    (@ ($m:ident) ($($acc:tt)*) $p:pat = $f:expr => $h:expr) => { $crate::__select_parse!(@ ($m) ($($acc)* [($p) ($f) (true) ($h)])) };
}

#[doc(hidden)]
#[macro_export]
macro_rules! __select_poll {
    ($out:ident $var:ident $k:ident $i:literal $c:ident $f:ident $p:pat, $cx:ident, $any:ident) => {
        if $k == $i && $c {
            $any = true;
            if let ::std::task::Poll::Ready(v) = ::std::future::Future::poll($f.as_mut(), $cx) {
                #[allow(unused_variables, unreachable_patterns)]
                let fits = match &v { $p => true, _ => false };
                if fits { return ::std::task::Poll::Ready(Some($crate::macros::$out::$var(v))); }
                $c = false;
            }
        }
    };
}

#[doc(hidden)]
#[macro_export]
macro_rules! __select_emit {
    ($m:ident [($p0:pat) ($f0:expr) ($c0:expr) ($h0:expr)] [else ($e:expr)]) => {{
        let __out = {
            let mut __c0 = $c0;
            let mut __f0 = ::std::future::IntoFuture::into_future($f0);
            let mut __f0 = unsafe { ::std::pin::Pin::new_unchecked(&mut __f0) };
            ::std::future::poll_fn(|cx| {
                let mut k: usize = $crate::__select_first!($m 1);
                let mut i = 0;
                let mut any = false;
                while i < 1 {
                    $crate::__select_poll!(Out1 A k 0 __c0 __f0 $p0, cx, any);
                    k = (k + 1) % 1;
                    i += 1;
                }
                let _ = any;
                if __c0 { ::std::task::Poll::Pending } else { ::std::task::Poll::Ready(None) }
            }).await
        };
        #[allow(unreachable_patterns)]
        match __out {
            Some($crate::macros::Out1::A($p0)) => $h0,
            _ => $e,
        }
    }};
    ($m:ident [($p0:pat) ($f0:expr) ($c0:expr) ($h0:expr)] [($p1:pat) ($f1:expr) ($c1:expr) ($h1:expr)] [else ($e:expr)]) => {{
        let __out = {
            let mut __c0 = $c0;
            let mut __c1 = $c1;
            let mut __f0 = ::std::future::IntoFuture::into_future($f0);
            let mut __f0 = unsafe { ::std::pin::Pin::new_unchecked(&mut __f0) };
            let mut __f1 = ::std::future::IntoFuture::into_future($f1);
            let mut __f1 = unsafe { ::std::pin::Pin::new_unchecked(&mut __f1) };
            ::std::future::poll_fn(|cx| {
                let mut k: usize = $crate::__select_first!($m 2);
                let mut i = 0;
                let mut any = false;
                while i < 2 {
                    $crate::__select_poll!(Out2 A k 0 __c0 __f0 $p0, cx, any);
                    $crate::__select_poll!(Out2 B k 1 __c1 __f1 $p1, cx, any);
                    k = (k + 1) % 2;
                    i += 1;
                }
                let _ = any;
                if __c0 || __c1 { ::std::task::Poll::Pending } else { ::std::task::Poll::Ready(None) }
            }).await
        };
        #[allow(unreachable_patterns)]
        match __out {
            Some($crate::macros::Out2::A($p0)) => $h0,
            Some($crate::macros::Out2::B($p1)) => $h1,
            _ => $e,
        }
    }};
    ($m:ident [($p0:pat) ($f0:expr) ($c0:expr) ($h0:expr)] [($p1:pat) ($f1:expr) ($c1:expr) ($h1:expr)] [($p2:pat) ($f2:expr) ($c2:expr) ($h2:expr)] [else ($e:expr)]) => {{
        let __out = {
            let mut __c0 = $c0;
            let mut __c1 = $c1;
            let mut __c2 = $c2;
            let mut __f0 = ::std::future::IntoFuture::into_future($f0);
            let mut __f0 = unsafe { ::std::pin::Pin::new_unchecked(&mut __f0) };
            let mut __f1 = ::std::future::IntoFuture::into_future($f1);
            let mut __f1 = unsafe { ::std::pin::Pin::new_unchecked(&mut __f1) };
            let mut __f2 = ::std::future::IntoFuture::into_future($f2);
            let mut __f2 = unsafe { ::std::pin::Pin::new_unchecked(&mut __f2) };
            ::std::future::poll_fn(|cx| {
                let mut k: usize = $crate::__select_first!($m 3);
                let mut i = 0;
                let mut any = false;
                while i < 3 {
                    $crate::__select_poll!(Out3 A k 0 __c0 __f0 $p0, cx, any);
                    $crate::__select_poll!(Out3 B k 1 __c1 __f1 $p1, cx, any);
                    $crate::__select_poll!(Out3 C k 2 __c2 __f2 $p2, cx, any);
                    k = (k + 1) % 3;
                    i += 1;
                }
                let _ = any;
                if __c0 || __c1 || __c2 { ::std::task::Poll::Pending } else { ::std::task::Poll::Ready(None) }
            }).await
        };
        #[allow(unreachable_patterns)]
        match __out {
            Some($crate::macros::Out3::A($p0)) => $h0,
            Some($crate::macros::Out3::B($p1)) => $h1,
            Some($crate::macros::Out3::C($p2)) => $h2,
            _ => $e,
        }
    }};
    ($m:ident [($p0:pat) ($f0:expr) ($c0:expr) ($h0:expr)] [($p1:pat) ($f1:expr) ($c1:expr) ($h1:expr)] [($p2:pat) ($f2:expr) ($c2:expr) ($h2:expr)] [($p3:pat) ($f3:expr) ($c3:expr) ($h3:expr)] [else ($e:expr)]) => {{
        let __out = {
            let mut __c0 = $c0;
            let mut __c1 = $c1;
            let mut __c2 = $c2;
            let mut __c3 = $c3;
            let mut __f0 = ::std::future::IntoFuture::into_future($f0);
            let mut __f0 = unsafe { ::std::pin::Pin::new_unchecked(&mut __f0) };
            let mut __f1 = ::std::future::IntoFuture::into_future($f1);
            let mut __f1 = unsafe { ::std::pin::Pin::new_unchecked(&mut __f1) };
            let mut __f2 = ::std::future::IntoFuture::into_future($f2);
            let mut __f2 = unsafe { ::std::pin::Pin::new_unchecked(&mut __f2) };
            let mut __f3 = ::std::future::IntoFuture::into_future($f3);
            let mut __f3 = unsafe { ::std::pin::Pin::new_unchecked(&mut __f3) };
            ::std::future::poll_fn(|cx| {
                let mut k: usize = $crate::__select_first!($m 4);
                let mut i = 0;
                let mut any = false;
                while i < 4 {
                    $crate::__select_poll!(Out4 A k 0 __c0 __f0 $p0, cx, any);
                    $crate::__select_poll!(Out4 B k 1 __c1 __f1 $p1, cx, any);
                    $crate::__select_poll!(Out4 C k 2 __c2 __f2 $p2, cx, any);
                    $crate::__select_poll!(Out4 D k 3 __c3 __f3 $p3, cx, any);
                    k = (k + 1) % 4;
                    i += 1;
                }
                let _ = any;
                if __c0 || __c1 || __c2 || __c3 { ::std::task::Poll::Pending } else { ::std::task::Poll::Ready(None) }
            }).await
        };
        #[allow(unreachable_patterns)]
        match __out {
            Some($crate::macros::Out4::A($p0)) => $h0,
            Some($crate::macros::Out4::B($p1)) => $h1,
            Some($crate::macros::Out4::C($p2)) => $h2,
            Some($crate::macros::Out4::D($p3)) => $h3,
            _ => $e,
        }
    }};
    ($m:ident [($p0:pat) ($f0:expr) ($c0:expr) ($h0:expr)] [($p1:pat) ($f1:expr) ($c1:expr) ($h1:expr)] [($p2:pat) ($f2:expr) ($c2:expr) ($h2:expr)] [($p3:pat) ($f3:expr) ($c3:expr) ($h3:expr)] [($p4:pat) ($f4:expr) ($c4:expr) ($h4:expr)] [else ($e:expr)]) => {{
        let __out = {
            let mut __c0 = $c0;
            let mut __c1 = $c1;
            let mut __c2 = $c2;
            let mut __c3 = $c3;
            let mut __c4 = $c4;
            let mut __f0 = ::std::future::IntoFuture::into_future($f0);
            let mut __f0 = unsafe { ::std::pin::Pin::new_unchecked(&mut __f0) };
            let mut __f1 = ::std::future::IntoFuture::into_future($f1);
            let mut __f1 = unsafe { ::std::pin::Pin::new_unchecked(&mut __f1) };
            let mut __f2 = ::std::future::IntoFuture::into_future($f2);
            let mut __f2 = unsafe { ::std::pin::Pin::new_unchecked(&mut __f2) };
            let mut __f3 = ::std::future::IntoFuture::into_future($f3);
            let mut __f3 = unsafe { ::std::pin::Pin::new_unchecked(&mut __f3) };
            let mut __f4 = ::std::future::IntoFuture::into_future($f4);
            let mut __f4 = unsafe { ::std::pin::Pin::new_unchecked(&mut __f4) };
            ::std::future::poll_fn(|cx| {
                let mut k: usize = $crate::__select_first!($m 5);
                let mut i = 0;
                let mut any = false;
                while i < 5 {
                    $crate::__select_poll!(Out5 A k 0 __c0 __f0 $p0, cx, any);
                    $crate::__select_poll!(Out5 B k 1 __c1 __f1 $p1, cx, any);
                    $crate::__select_poll!(Out5 C k 2 __c2 __f2 $p2, cx, any);
                    $crate::__select_poll!(Out5 D k 3 __c3 __f3 $p3, cx, any);
                    $crate::__select_poll!(Out5 E k 4 __c4 __f4 $p4, cx, any);
                    k = (k + 1) % 5;
                    i += 1;
                }
                let _ = any;
                if __c0 || __c1 || __c2 || __c3 || __c4 { ::std::task::Poll::Pending } else { ::std::task::Poll::Ready(None) }
            }).await
        };
        #[allow(unreachable_patterns)]
        match __out {
            Some($crate::macros::Out5::A($p0)) => $h0,
            Some($crate::macros::Out5::B($p1)) => $h1,
            Some($crate::macros::Out5::C($p2)) => $h2,
            Some($crate::macros::Out5::D($p3)) => $h3,
            Some($crate::macros::Out5::E($p4)) => $h4,
            _ => $e,
        }
    }};
    ($m:ident [($p0:pat) ($f0:expr) ($c0:expr) ($h0:expr)] [($p1:pat) ($f1:expr) ($c1:expr) ($h1:expr)] [($p2:pat) ($f2:expr) ($c2:expr) ($h2:expr)] [($p3:pat) ($f3:expr) ($c3:expr) ($h3:expr)] [($p4:pat) ($f4:expr) ($c4:expr) ($h4:expr)] [($p5:pat) ($f5:expr) ($c5:expr) ($h5:expr)] [else ($e:expr)]) => {{
        let __out = {
            let mut __c0 = $c0;
            let mut __c1 = $c1;
            let mut __c2 = $c2;
            let mut __c3 = $c3;
            let mut __c4 = $c4;
            let mut __c5 = $c5;
            let mut __f0 = ::std::future::IntoFuture::into_future($f0);
            let mut __f0 = unsafe { ::std::pin::Pin::new_unchecked(&mut __f0) };
            let mut __f1 = ::std::future::IntoFuture::into_future($f1);
            let mut __f1 = unsafe { ::std::pin::Pin::new_unchecked(&mut __f1) };
            let mut __f2 = ::std::future::IntoFuture::into_future($f2);
            let mut __f2 = unsafe { ::std::pin::Pin::new_unchecked(&mut __f2) };
            let mut __f3 = ::std::future::IntoFuture::into_future($f3);
            let mut __f3 = unsafe { ::std::pin::Pin::new_unchecked(&mut __f3) };
            let mut __f4 = ::std::future::IntoFuture::into_future($f4);
            let mut __f4 = unsafe { ::std::pin::Pin::new_unchecked(&mut __f4) };
            let mut __f5 = ::std::future::IntoFuture::into_future($f5);
            let mut __f5 = unsafe { ::std::pin::Pin::new_unchecked(&mut __f5) };
            ::std::future::poll_fn(|cx| {
                let mut k: usize = $crate::__select_first!($m 6);
                let mut i = 0;
                let mut any = false;
                while i < 6 {
                    $crate::__select_poll!(Out6 A k 0 __c0 __f0 $p0, cx, any);
                    $crate::__select_poll!(Out6 B k 1 __c1 __f1 $p1, cx, any);
                    $crate::__select_poll!(Out6 C k 2 __c2 __f2 $p2, cx, any);
                    $crate::__select_poll!(Out6 D k 3 __c3 __f3 $p3, cx, any);
                    $crate::__select_poll!(Out6 E k 4 __c4 __f4 $p4, cx, any);
                    $crate::__select_poll!(Out6 F k 5 __c5 __f5 $p5, cx, any);
                    k = (k + 1) % 6;
                    i += 1;
                }
                let _ = any;
                if __c0 || __c1 || __c2 || __c3 || __c4 || __c5 { ::std::task::Poll::Pending } else { ::std::task::Poll::Ready(None) }
            }).await
        };
        #[allow(unreachable_patterns)]
        match __out {
            Some($crate::macros::Out6::A($p0)) => $h0,
            Some($crate::macros::Out6::B($p1)) => $h1,
            Some($crate::macros::Out6::C($p2)) => $h2,
            Some($crate::macros::Out6::D($p3)) => $h3,
            Some($crate::macros::Out6::E($p4)) => $h4,
            Some($crate::macros::Out6::F($p5)) => $h5,
            _ => $e,
        }
    }};
    ($m:ident [($p0:pat) ($f0:expr) ($c0:expr) ($h0:expr)] [($p1:pat) ($f1:expr) ($c1:expr) ($h1:expr)] [($p2:pat) ($f2:expr) ($c2:expr) ($h2:expr)] [($p3:pat) ($f3:expr) ($c3:expr) ($h3:expr)] [($p4:pat) ($f4:expr) ($c4:expr) ($h4:expr)] [($p5:pat) ($f5:expr) ($c5:expr) ($h5:expr)] [($p6:pat) ($f6:expr) ($c6:expr) ($h6:expr)] [else ($e:expr)]) => {{
        let __out = {
            let mut __c0 = $c0;
            let mut __c1 = $c1;
            let mut __c2 = $c2;
            let mut __c3 = $c3;
            let mut __c4 = $c4;
            let mut __c5 = $c5;
            let mut __c6 = $c6;
            let mut __f0 = ::std::future::IntoFuture::into_future($f0);
            let mut __f0 = unsafe { ::std::pin::Pin::new_unchecked(&mut __f0) };
            let mut __f1 = ::std::future::IntoFuture::into_future($f1);
            let mut __f1 = unsafe { ::std::pin::Pin::new_unchecked(&mut __f1) };
            let mut __f2 = ::std::future::IntoFuture::into_future($f2);
            let mut __f2 = unsafe { ::std::pin::Pin::new_unchecked(&mut __f2) };
            let mut __f3 = ::std::future::IntoFuture::into_future($f3);
            let mut __f3 = unsafe { ::std::pin::Pin::new_unchecked(&mut __f3) };
            let mut __f4 = ::std::future::IntoFuture::into_future($f4);
            let mut __f4 = unsafe { ::std::pin::Pin::new_unchecked(&mut __f4) };
            let mut __f5 = ::std::future::IntoFuture::into_future($f5);
            let mut __f5 = unsafe { ::std::pin::Pin::new_unchecked(&mut __f5) };
            let mut __f6 = ::std::future::IntoFuture::into_future($f6);
            let mut __f6 = unsafe { ::std::pin::Pin::new_unchecked(&mut __f6) };
            ::std::future::poll_fn(|cx| {
                let mut k: usize = $crate::__select_first!($m 7);
                let mut i = 0;
                let mut any = false;
                while i < 7 {
                    $crate::__select_poll!(Out7 A k 0 __c0 __f0 $p0, cx, any);
                    $crate::__select_poll!(Out7 B k 1 __c1 __f1 $p1, cx, any);
                    $crate::__select_poll!(Out7 C k 2 __c2 __f2 $p2, cx, any);
                    $crate::__select_poll!(Out7 D k 3 __c3 __f3 $p3, cx, any);
                    $crate::__select_poll!(Out7 E k 4 __c4 __f4 $p4, cx, any);
                    $crate::__select_poll!(Out7 F k 5 __c5 __f5 $p5, cx, any);
                    $crate::__select_poll!(Out7 G k 6 __c6 __f6 $p6, cx, any);
                    k = (k + 1) % 7;
                    i += 1;
                }
                let _ = any;
                if __c0 || __c1 || __c2 || __c3 || __c4 || __c5 || __c6 { ::std::task::Poll::Pending } else { ::std::task::Poll::Ready(None) }
            }).await
        };
        #[allow(unreachable_patterns)]
        match __out {
            Some($crate::macros::Out7::A($p0)) => $h0,
            Some($crate::macros::Out7::B($p1)) => $h1,
            Some($crate::macros::Out7::C($p2)) => $h2,
            Some($crate::macros::Out7::D($p3)) => $h3,
            Some($crate::macros::Out7::E($p4)) => $h4,
            Some($crate::macros::Out7::F($p5)) => $h5,
            Some($crate::macros::Out7::G($p6)) => $h6,
            _ => $e,
        }
    }};
    ($m:ident [($p0:pat) ($f0:expr) ($c0:expr) ($h0:expr)] [($p1:pat) ($f1:expr) ($c1:expr) ($h1:expr)] [($p2:pat) ($f2:expr) ($c2:expr) ($h2:expr)] [($p3:pat) ($f3:expr) ($c3:expr) ($h3:expr)] [($p4:pat) ($f4:expr) ($c4:expr) ($h4:expr)] [($p5:pat) ($f5:expr) ($c5:expr) ($h5:expr)] [($p6:pat) ($f6:expr) ($c6:expr) ($h6:expr)] [($p7:pat) ($f7:expr) ($c7:expr) ($h7:expr)] [else ($e:expr)]) => {{
        let __out = {
            let mut __c0 = $c0;
            let mut __c1 = $c1;
            let mut __c2 = $c2;
            let mut __c3 = $c3;
            let mut __c4 = $c4;
            let mut __c5 = $c5;
            let mut __c6 = $c6;
            let mut __c7 = $c7;
            let mut __f0 = ::std::future::IntoFuture::into_future($f0);
            let mut __f0 = unsafe { ::std::pin::Pin::new_unchecked(&mut __f0) };
            let mut __f1 = ::std::future::IntoFuture::into_future($f1);
            let mut __f1 = unsafe { ::std::pin::Pin::new_unchecked(&mut __f1) };
            let mut __f2 = ::std::future::IntoFuture::into_future($f2);
            let mut __f2 = unsafe { ::std::pin::Pin::new_unchecked(&mut __f2) };
            let mut __f3 = ::std::future::IntoFuture::into_future($f3);
            let mut __f3 = unsafe { ::std::pin::Pin::new_unchecked(&mut __f3) };
            let mut __f4 = ::std::future::IntoFuture::into_future($f4);
            let mut __f4 = unsafe { ::std::pin::Pin::new_unchecked(&mut __f4) };
            let mut __f5 = ::std::future::IntoFuture::into_future($f5);
            let mut __f5 = unsafe { ::std::pin::Pin::new_unchecked(&mut __f5) };
            let mut __f6 = ::std::future::IntoFuture::into_future($f6);
            let mut __f6 = unsafe { ::std::pin::Pin::new_unchecked(&mut __f6) };
            let mut __f7 = ::std::future::IntoFuture::into_future($f7);
            let mut __f7 = unsafe { ::std::pin::Pin::new_unchecked(&mut __f7) };
            ::std::future::poll_fn(|cx| {
                let mut k: usize = $crate::__select_first!($m 8);
                let mut i = 0;
                let mut any = false;
                while i < 8 {
                    $crate::__select_poll!(Out8 A k 0 __c0 __f0 $p0, cx, any);
                    $crate::__select_poll!(Out8 B k 1 __c1 __f1 $p1, cx, any);
                    $crate::__select_poll!(Out8 C k 2 __c2 __f2 $p2, cx, any);
                    $crate::__select_poll!(Out8 D k 3 __c3 __f3 $p3, cx, any);
                    $crate::__select_poll!(Out8 E k 4 __c4 __f4 $p4, cx, any);
                    $crate::__select_poll!(Out8 F k 5 __c5 __f5 $p5, cx, any);
                    $crate::__select_poll!(Out8 G k 6 __c6 __f6 $p6, cx, any);
                    $crate::__select_poll!(Out8 H k 7 __c7 __f7 $p7, cx, any);
                    k = (k + 1) % 8;
                    i += 1;
                }
                let _ = any;
                if __c0 || __c1 || __c2 || __c3 || __c4 || __c5 || __c6 || __c7 { ::std::task::Poll::Pending } else { ::std::task::Poll::Ready(None) }
            }).await
        };
        #[allow(unreachable_patterns)]
        match __out {
            Some($crate::macros::Out8::A($p0)) => $h0,
            Some($crate::macros::Out8::B($p1)) => $h1,
            Some($crate::macros::Out8::C($p2)) => $h2,
            Some($crate::macros::Out8::D($p3)) => $h3,
            Some($crate::macros::Out8::E($p4)) => $h4,
            Some($crate::macros::Out8::F($p5)) => $h5,
            Some($crate::macros::Out8::G($p6)) => $h6,
            Some($crate::macros::Out8::H($p7)) => $h7,
            _ => $e,
        }
    }};
}

#[doc(hidden)]
#[macro_export]
macro_rules! __select_first {
    (biased $n:literal) => { 0usize };
    (fair $n:literal) => { $crate::verif::select_first($n) };
}

/// `tokio::join!`: polled in order on every wake-up.
#[macro_export]
macro_rules! join {
    () => { async {}.await };
    ($a:expr $(,)?) => {{
        let mut __a = ::std::future::IntoFuture::into_future($a); let mut __oa = None;
        ::std::future::poll_fn(|cx| {
            if __oa.is_none() { if let ::std::task::Poll::Ready(v) = ::std::future::Future::poll(unsafe { ::std::pin::Pin::new_unchecked(&mut __a) }, cx) { __oa = Some(v); } }
            if __oa.is_some() { ::std::task::Poll::Ready((__oa.take().unwrap(),)) } else { ::std::task::Poll::Pending }
        }).await
    }};
    ($a:expr, $b:expr $(,)?) => {{
        let mut __a = ::std::future::IntoFuture::into_future($a); let mut __oa = None;
        let mut __b = ::std::future::IntoFuture::into_future($b); let mut __ob = None;
        ::std::future::poll_fn(|cx| {
            if __oa.is_none() { if let ::std::task::Poll::Ready(v) = ::std::future::Future::poll(unsafe { ::std::pin::Pin::new_unchecked(&mut __a) }, cx) { __oa = Some(v); } }
            if __ob.is_none() { if let ::std::task::Poll::Ready(v) = ::std::future::Future::poll(unsafe { ::std::pin::Pin::new_unchecked(&mut __b) }, cx) { __ob = Some(v); } }
            if __oa.is_some() && __ob.is_some() { ::std::task::Poll::Ready((__oa.take().unwrap(), __ob.take().unwrap())) } else { ::std::task::Poll::Pending }
        }).await
    }};
    ($a:expr, $b:expr, $c:expr $(,)?) => {{
        let mut __a = ::std::future::IntoFuture::into_future($a); let mut __oa = None;
        let mut __b = ::std::future::IntoFuture::into_future($b); let mut __ob = None;
        let mut __c = ::std::future::IntoFuture::into_future($c); let mut __oc = None;
        ::std::future::poll_fn(|cx| {
            if __oa.is_none() { if let ::std::task::Poll::Ready(v) = ::std::future::Future::poll(unsafe { ::std::pin::Pin::new_unchecked(&mut __a) }, cx) { __oa = Some(v); } }
            if __ob.is_none() { if let ::std::task::Poll::Ready(v) = ::std::future::Future::poll(unsafe { ::std::pin::Pin::new_unchecked(&mut __b) }, cx) { __ob = Some(v); } }
            if __oc.is_none() { if let ::std::task::Poll::Ready(v) = ::std::future::Future::poll(unsafe { ::std::pin::Pin::new_unchecked(&mut __c) }, cx) { __oc = Some(v); } }
            if __oa.is_some() && __ob.is_some() && __oc.is_some() { ::std::task::Poll::Ready((__oa.take().unwrap(), __ob.take().unwrap(), __oc.take().unwrap())) } else { ::std::task::Poll::Pending }
        }).await
    }};
    ($a:expr, $b:expr, $c:expr, $d:expr $(,)?) => {{
        let mut __a = ::std::future::IntoFuture::into_future($a); let mut __oa = None;
        let mut __b = ::std::future::IntoFuture::into_future($b); let mut __ob = None;
        let mut __c = ::std::future::IntoFuture::into_future($c); let mut __oc = None;
        let mut __d = ::std::future::IntoFuture::into_future($d); let mut __od = None;
        ::std::future::poll_fn(|cx| {
            if __oa.is_none() { if let ::std::task::Poll::Ready(v) = ::std::future::Future::poll(unsafe { ::std::pin::Pin::new_unchecked(&mut __a) }, cx) { __oa = Some(v); } }
            if __ob.is_none() { if let ::std::task::Poll::Ready(v) = ::std::future::Future::poll(unsafe { ::std::pin::Pin::new_unchecked(&mut __b) }, cx) { __ob = Some(v); } }
            if __oc.is_none() { if let ::std::task::Poll::Ready(v) = ::std::future::Future::poll(unsafe { ::std::pin::Pin::new_unchecked(&mut __c) }, cx) { __oc = Some(v); } }
            if __od.is_none() { if let ::std::task::Poll::Ready(v) = ::std::future::Future::poll(unsafe { ::std::pin::Pin::new_unchecked(&mut __d) }, cx) { __od = Some(v); } }
            if __oa.is_some() && __ob.is_some() && __oc.is_some() && __od.is_some() { ::std::task::Poll::Ready((__oa.take().unwrap(), __ob.take().unwrap(), __oc.take().unwrap(), __od.take().unwrap())) } else { ::std::task::Poll::Pending }
        }).await
    }};
    ($a:expr, $b:expr, $c:expr, $d:expr, $e:expr $(,)?) => {{
        let mut __a = ::std::future::IntoFuture::into_future($a); let mut __oa = None;
        let mut __b = ::std::future::IntoFuture::into_future($b); let mut __ob = None;
        let mut __c = ::std::future::IntoFuture::into_future($c); let mut __oc = None;
        let mut __d = ::std::future::IntoFuture::into_future($d); let mut __od = None;
        let mut __e = ::std::future::IntoFuture::into_future($e); let mut __oe = None;
        ::std::future::poll_fn(|cx| {
            if __oa.is_none() { if let ::std::task::Poll::Ready(v) = ::std::future::Future::poll(unsafe { ::std::pin::Pin::new_unchecked(&mut __a) }, cx) { __oa = Some(v); } }
            if __ob.is_none() { if let ::std::task::Poll::Ready(v) = ::std::future::Future::poll(unsafe { ::std::pin::Pin::new_unchecked(&mut __b) }, cx) { __ob = Some(v); } }
            if __oc.is_none() { if let ::std::task::Poll::Ready(v) = ::std::future::Future::poll(unsafe { ::std::pin::Pin::new_unchecked(&mut __c) }, cx) { __oc = Some(v); } }
            if __od.is_none() { if let ::std::task::Poll::Ready(v) = ::std::future::Future::poll(unsafe { ::std::pin::Pin::new_unchecked(&mut __d) }, cx) { __od = Some(v); } }
            if __oe.is_none() { if let ::std::task::Poll::Ready(v) = ::std::future::Future::poll(unsafe { ::std::pin::Pin::new_unchecked(&mut __e) }, cx) { __oe = Some(v); } }
            if __oa.is_some() && __ob.is_some() && __oc.is_some() && __od.is_some() && __oe.is_some() { ::std::task::Poll::Ready((__oa.take().unwrap(), __ob.take().unwrap(), __oc.take().unwrap(), __od.take().unwrap(), __oe.take().unwrap())) } else { ::std::task::Poll::Pending }
        }).await
    }};
    ($a:expr, $b:expr, $c:expr, $d:expr, $e:expr, $f:expr $(,)?) => {{
        let mut __a = ::std::future::IntoFuture::into_future($a); let mut __oa = None;
        let mut __b = ::std::future::IntoFuture::into_future($b); let mut __ob = None;
        let mut __c = ::std::future::IntoFuture::into_future($c); let mut __oc = None;
        let mut __d = ::std::future::IntoFuture::into_future($d); let mut __od = None;
        let mut __e = ::std::future::IntoFuture::into_future($e); let mut __oe = None;
        let mut __f = ::std::future::IntoFuture::into_future($f); let mut __of = None;
        ::std::future::poll_fn(|cx| {
            if __oa.is_none() { if let ::std::task::Poll::Ready(v) = ::std::future::Future::poll(unsafe { ::std::pin::Pin::new_unchecked(&mut __a) }, cx) { __oa = Some(v); } }
            if __ob.is_none() { if let ::std::task::Poll::Ready(v) = ::std::future::Future::poll(unsafe { ::std::pin::Pin::new_unchecked(&mut __b) }, cx) { __ob = Some(v); } }
            if __oc.is_none() { if let ::std::task::Poll::Ready(v) = ::std::future::Future::poll(unsafe { ::std::pin::Pin::new_unchecked(&mut __c) }, cx) { __oc = Some(v); } }
            if __od.is_none() { if let ::std::task::Poll::Ready(v) = ::std::future::Future::poll(unsafe { ::std::pin::Pin::new_unchecked(&mut __d) }, cx) { __od = Some(v); } }
            if __oe.is_none() { if let ::std::task::Poll::Ready(v) = ::std::future::Future::poll(unsafe { ::std::pin::Pin::new_unchecked(&mut __e) }, cx) { __oe = Some(v); } }
            if __of.is_none() { if let ::std::task::Poll::Ready(v) = ::std::future::Future::poll(unsafe { ::std::pin::Pin::new_unchecked(&mut __f) }, cx) { __of = Some(v); } }
            if __oa.is_some() && __ob.is_some() && __oc.is_some() && __od.is_some() && __oe.is_some() && __of.is_some() { ::std::task::Poll::Ready((__oa.take().unwrap(), __ob.take().unwrap(), __oc.take().unwrap(), __od.take().unwrap(), __oe.take().unwrap(), __of.take().unwrap())) } else { ::std::task::Poll::Pending }
        }).await
    }};
}

/// `tokio::try_join!`: as `join!`, ending at the first error.
#[macro_export]
macro_rules! try_join {
    ($a:expr $(,)?) => {{
        let mut __a = ::std::future::IntoFuture::into_future($a); let mut __oa = None;
        ::std::future::poll_fn(|cx| {
            if __oa.is_none() { if let ::std::task::Poll::Ready(v) = ::std::future::Future::poll(unsafe { ::std::pin::Pin::new_unchecked(&mut __a) }, cx) { match v { Ok(v) => __oa = Some(v), Err(e) => return ::std::task::Poll::Ready(Err(e)) } } }
            if __oa.is_some() { ::std::task::Poll::Ready(Ok((__oa.take().unwrap(),))) } else { ::std::task::Poll::Pending }
        }).await
    }};
    ($a:expr, $b:expr $(,)?) => {{
        let mut __a = ::std::future::IntoFuture::into_future($a); let mut __oa = None;
        let mut __b = ::std::future::IntoFuture::into_future($b); let mut __ob = None;
        ::std::future::poll_fn(|cx| {
            if __oa.is_none() { if let ::std::task::Poll::Ready(v) = ::std::future::Future::poll(unsafe { ::std::pin::Pin::new_unchecked(&mut __a) }, cx) { match v { Ok(v) => __oa = Some(v), Err(e) => return ::std::task::Poll::Ready(Err(e)) } } }
            if __ob.is_none() { if let ::std::task::Poll::Ready(v) = ::std::future::Future::poll(unsafe { ::std::pin::Pin::new_unchecked(&mut __b) }, cx) { match v { Ok(v) => __ob = Some(v), Err(e) => return ::std::task::Poll::Ready(Err(e)) } } }
            if __oa.is_some() && __ob.is_some() { ::std::task::Poll::Ready(Ok((__oa.take().unwrap(), __ob.take().unwrap()))) } else { ::std::task::Poll::Pending }
        }).await
    }};
    ($a:expr, $b:expr, $c:expr $(,)?) => {{
        let mut __a = ::std::future::IntoFuture::into_future($a); let mut __oa = None;
        let mut __b = ::std::future::IntoFuture::into_future($b); let mut __ob = None;
        let mut __c = ::std::future::IntoFuture::into_future($c); let mut __oc = None;
        ::std::future::poll_fn(|cx| {
            if __oa.is_none() { if let ::std::task::Poll::Ready(v) = ::std::future::Future::poll(unsafe { ::std::pin::Pin::new_unchecked(&mut __a) }, cx) { match v { Ok(v) => __oa = Some(v), Err(e) => return ::std::task::Poll::Ready(Err(e)) } } }
            if __ob.is_none() { if let ::std::task::Poll::Ready(v) = ::std::future::Future::poll(unsafe { ::std::pin::Pin::new_unchecked(&mut __b) }, cx) { match v { Ok(v) => __ob = Some(v), Err(e) => return ::std::task::Poll::Ready(Err(e)) } } }
            if __oc.is_none() { if let ::std::task::Poll::Ready(v) = ::std::future::Future::poll(unsafe { ::std::pin::Pin::new_unchecked(&mut __c) }, cx) { match v { Ok(v) => __oc = Some(v), Err(e) => return ::std::task::Poll::Ready(Err(e)) } } }
            if __oa.is_some() && __ob.is_some() && __oc.is_some() { ::std::task::Poll::Ready(Ok((__oa.take().unwrap(), __ob.take().unwrap(), __oc.take().unwrap()))) } else { ::std::task::Poll::Pending }
        }).await
    }};
    ($a:expr, $b:expr, $c:expr, $d:expr $(,)?) => {{
        let mut __a = ::std::future::IntoFuture::into_future($a); let mut __oa = None;
        let mut __b = ::std::future::IntoFuture::into_future($b); let mut __ob = None;
        let mut __c = ::std::future::IntoFuture::into_future($c); let mut __oc = None;
        let mut __d = ::std::future::IntoFuture::into_future($d); let mut __od = None;
        ::std::future::poll_fn(|cx| {
            if __oa.is_none() { if let ::std::task::Poll::Ready(v) = ::std::future::Future::poll(unsafe { ::std::pin::Pin::new_unchecked(&mut __a) }, cx) { match v { Ok(v) => __oa = Some(v), Err(e) => return ::std::task::Poll::Ready(Err(e)) } } }
            if __ob.is_none() { if let ::std::task::Poll::Ready(v) = ::std::future::Future::poll(unsafe { ::std::pin::Pin::new_unchecked(&mut __b) }, cx) { match v { Ok(v) => __ob = Some(v), Err(e) => return ::std::task::Poll::Ready(Err(e)) } } }
            if __oc.is_none() { if let ::std::task::Poll::Ready(v) = ::std::future::Future::poll(unsafe { ::std::pin::Pin::new_unchecked(&mut __c) }, cx) { match v { Ok(v) => __oc = Some(v), Err(e) => return ::std::task::Poll::Ready(Err(e)) } } }
            if __od.is_none() { if let ::std::task::Poll::Ready(v) = ::std::future::Future::poll(unsafe { ::std::pin::Pin::new_unchecked(&mut __d) }, cx) { match v { Ok(v) => __od = Some(v), Err(e) => return ::std::task::Poll::Ready(Err(e)) } } }
            if __oa.is_some() && __ob.is_some() && __oc.is_some() && __od.is_some() { ::std::task::Poll::Ready(Ok((__oa.take().unwrap(), __ob.take().unwrap(), __oc.take().unwrap(), __od.take().unwrap()))) } else { ::std::task::Poll::Pending }
        }).await
    }};
    ($a:expr, $b:expr, $c:expr, $d:expr, $e:expr $(,)?) => {{
        let mut __a = ::std::future::IntoFuture::into_future($a); let mut __oa = None;
        let mut __b = ::std::future::IntoFuture::into_future($b); let mut __ob = None;
        let mut __c = ::std::future::IntoFuture::into_future($c); let mut __oc = None;
        let mut __d = ::std::future::IntoFuture::into_future($d); let mut __od = None;
        let mut __e = ::std::future::IntoFuture::into_future($e); let mut __oe = None;
        ::std::future::poll_fn(|cx| {
            if __oa.is_none() { if let ::std::task::Poll::Ready(v) = ::std::future::Future::poll(unsafe { ::std::pin::Pin::new_unchecked(&mut __a) }, cx) { match v { Ok(v) => __oa = Some(v), Err(e) => return ::std::task::Poll::Ready(Err(e)) } } }
            if __ob.is_none() { if let ::std::task::Poll::Ready(v) = ::std::future::Future::poll(unsafe { ::std::pin::Pin::new_unchecked(&mut __b) }, cx) { match v { Ok(v) => __ob = Some(v), Err(e) => return ::std::task::Poll::Ready(Err(e)) } } }
            if __oc.is_none() { if let ::std::task::Poll::Ready(v) = ::std::future::Future::poll(unsafe { ::std::pin::Pin::new_unchecked(&mut __c) }, cx) { match v { Ok(v) => __oc = Some(v), Err(e) => return ::std::task::Poll::Ready(Err(e)) } } }
            if __od.is_none() { if let ::std::task::Poll::Ready(v) = ::std::future::Future::poll(unsafe { ::std::pin::Pin::new_unchecked(&mut __d) }, cx) { match v { Ok(v) => __od = Some(v), Err(e) => return ::std::task::Poll::Ready(Err(e)) } } }
            if __oe.is_none() { if let ::std::task::Poll::Ready(v) = ::std::future::Future::poll(unsafe { ::std::pin::Pin::new_unchecked(&mut __e) }, cx) { match v { Ok(v) => __oe = Some(v), Err(e) => return ::std::task::Poll::Ready(Err(e)) } } }
            if __oa.is_some() && __ob.is_some() && __oc.is_some() && __od.is_some() && __oe.is_some() { ::std::task::Poll::Ready(Ok((__oa.take().unwrap(), __ob.take().unwrap(), __oc.take().unwrap(), __od.take().unwrap(), __oe.take().unwrap()))) } else { ::std::task::Poll::Pending }
        }).await
    }};
    ($a:expr, $b:expr, $c:expr, $d:expr, $e:expr, $f:expr $(,)?) => {{
        let mut __a = ::std::future::IntoFuture::into_future($a); let mut __oa = None;
        let mut __b = ::std::future::IntoFuture::into_future($b); let mut __ob = None;
        let mut __c = ::std::future::IntoFuture::into_future($c); let mut __oc = None;
        let mut __d = ::std::future::IntoFuture::into_future($d); let mut __od = None;
        let mut __e = ::std::future::IntoFuture::into_future($e); let mut __oe = None;
        let mut __f = ::std::future::IntoFuture::into_future($f); let mut __of = None;
        ::std::future::poll_fn(|cx| {
            if __oa.is_none() { if let ::std::task::Poll::Ready(v) = ::std::future::Future::poll(unsafe { ::std::pin::Pin::new_unchecked(&mut __a) }, cx) { match v { Ok(v) => __oa = Some(v), Err(e) => return ::std::task::Poll::Ready(Err(e)) } } }
            if __ob.is_none() { if let ::std::task::Poll::Ready(v) = ::std::future::Future::poll(unsafe { ::std::pin::Pin::new_unchecked(&mut __b) }, cx) { match v { Ok(v) => __ob = Some(v), Err(e) => return ::std::task::Poll::Ready(Err(e)) } } }
            if __oc.is_none() { if let ::std::task::Poll::Ready(v) = ::std::future::Future::poll(unsafe { ::std::pin::Pin::new_unchecked(&mut __c) }, cx) { match v { Ok(v) => __oc = Some(v), Err(e) => return ::std::task::Poll::Ready(Err(e)) } } }
            if __od.is_none() { if let ::std::task::Poll::Ready(v) = ::std::future::Future::poll(unsafe { ::std::pin::Pin::new_unchecked(&mut __d) }, cx) { match v { Ok(v) => __od = Some(v), Err(e) => return ::std::task::Poll::Ready(Err(e)) } } }
            if __oe.is_none() { if let ::std::task::Poll::Ready(v) = ::std::future::Future::poll(unsafe { ::std::pin::Pin::new_unchecked(&mut __e) }, cx) { match v { Ok(v) => __oe = Some(v), Err(e) => return ::std::task::Poll::Ready(Err(e)) } } }
            if __of.is_none() { if let ::std::task::Poll::Ready(v) = ::std::future::Future::poll(unsafe { ::std::pin::Pin::new_unchecked(&mut __f) }, cx) { match v { Ok(v) => __of = Some(v), Err(e) => return ::std::task::Poll::Ready(Err(e)) } } }
            if __oa.is_some() && __ob.is_some() && __oc.is_some() && __od.is_some() && __oe.is_some() && __of.is_some() { ::std::task::Poll::Ready(Ok((__oa.take().unwrap(), __ob.take().unwrap(), __oc.take().unwrap(), __od.take().unwrap(), __oe.take().unwrap(), __of.take().unwrap()))) } else { ::std::task::Poll::Pending }
        }).await
    }};
}

#[macro_export]
macro_rules! pin {
    ($($x:ident),* $(,)?) => { $(
        let mut $x = $x;
        #[allow(unused_mut)]
        let mut $x = unsafe { ::std::pin::Pin::new_unchecked(&mut $x) };
    )* };
    ($(let $x:ident = $init:expr;)*) => { $(
        let $x = $init;
        $crate::pin!($x);
    )* };
}
