//! mpz-share-conversion, mpz-ole, mpz-ot
use crate::{common::{future::MaybeDone, Context, Flush}, core::Block, fields::Field, serio::{IoStreamExt, SinkExt}};
use async_trait::async_trait;
use futures::channel::oneshot;

#[derive(Debug, thiserror::Error)]
#[error("share conversion error: {0}")]
pub struct ConvError(String);
fn e<E: ToString>(x: E) -> ConvError {
    ConvError(x.to_string())
}
#[derive(Debug)]
pub struct Shares<F> {
    pub shares: Vec<F>,
}
type Out<F> = MaybeDone<Shares<F>>;
pub trait AdditiveToMultiplicative<F> {
    type Error: std::error::Error + Send + Sync + 'static;
    type Future: crate::common::future::Output<Ok = Shares<F>, Error = crate::common::future::Canceled> + Send
        + std::future::Future<Output = Result<Shares<F>, crate::common::future::Canceled>>;
    fn alloc(&mut self, n: usize) -> Result<(), Self::Error>;
    fn queue_to_multiplicative(&mut self, x: &[F]) -> Result<Self::Future, Self::Error>;
}
pub trait MultiplicativeToAdditive<F> {
    type Error: std::error::Error + Send + Sync + 'static;
    type Future: crate::common::future::Output<Ok = Shares<F>, Error = crate::common::future::Canceled> + Send
        + std::future::Future<Output = Result<Shares<F>, crate::common::future::Canceled>>;
    fn alloc(&mut self, n: usize) -> Result<(), Self::Error>;
    fn queue_to_additive(&mut self, x: &[F]) -> Result<Self::Future, Self::Error>;
}
pub trait ShareConvert<F>:
    AdditiveToMultiplicative<F, Future: Send> + MultiplicativeToAdditive<F, Future: Send>
{
}
impl<F, T> ShareConvert<F> for T where T: AdditiveToMultiplicative<F, Future: Send> + MultiplicativeToAdditive<F, Future: Send> {}

/// The conversions of one party; the sender chooses the random share.
#[derive(Debug)]
pub struct Conv<F> {
    sender: bool,
    a2m: (usize, usize),
    m2a: (usize, usize),
    queue: Vec<(bool, Vec<F>, oneshot::Sender<Shares<F>>)>,
}
impl<F: Field> Conv<F> {
    pub fn new(sender: bool) -> Self {
        Conv { sender, a2m: (0, 0), m2a: (0, 0), queue: vec![] }
    }
    fn push(&mut self, mul: bool, x: &[F]) -> Result<Out<F>, ConvError> {
        let c = if mul { &mut self.a2m } else { &mut self.m2a };
        c.1 += x.len();
        if c.1 > c.0 {
            return Err(e("more conversions than allocated"));
        }
        let (tx, rx) = oneshot::channel();
        self.queue.push((mul, x.to_vec(), tx));
        Ok(MaybeDone(rx))
    }
    async fn run(&mut self, ctx: &mut Context) -> Result<(), ConvError> {
        let queue = std::mem::take(&mut self.queue);
        if queue.is_empty() {
            return Ok(());
        }
        let io = ctx.io_mut();
        let mine: Vec<(bool, Vec<F>)> = queue.iter().map(|q| (q.0, q.1.clone())).collect();
        let out: Vec<Vec<F>> = if self.sender {
            let theirs: Vec<(bool, Vec<F>)> = io.expect_next().await.map_err(e)?;
            let (mut mo, mut to) = (vec![], vec![]);
            if theirs.len() != mine.len() {
                return Err(e("different conversions queued"));
            }
            for ((mul, x), (m2, y)) in mine.iter().zip(&theirs) {
                if mul != m2 || x.len() != y.len() {
                    return Err(e("different conversions queued"));
                }
                let (mut a, mut b) = (vec![], vec![]);
                for (x, y) in x.iter().zip(y) {
                    let r = loop {
                        let r = F::rand(&mut rand::rng());
                        if r != F::zero() {
                            break r;
                        }
                    };
                    a.push(r);
                    b.push(if *mul { (*x + *y) * r.inverse().unwrap() } else { *x * *y - r });
                }
                mo.push(a);
                to.push(b);
            }
            io.send(to).await.map_err(e)?;
            mo
        } else {
            io.send(mine).await.map_err(e)?;
            io.expect_next().await.map_err(e)?
        };
        for ((_, _, tx), shares) in queue.into_iter().zip(out) {
            let _ = tx.send(Shares { shares });
        }
        Ok(())
    }
}
impl<F: Field> AdditiveToMultiplicative<F> for Conv<F> {
    type Error = ConvError;
    type Future = Out<F>;
    fn alloc(&mut self, n: usize) -> Result<(), ConvError> {
        self.a2m.0 += n;
        Ok(())
    }
    fn queue_to_multiplicative(&mut self, x: &[F]) -> Result<Out<F>, ConvError> {
        self.push(true, x)
    }
}
impl<F: Field> MultiplicativeToAdditive<F> for Conv<F> {
    type Error = ConvError;
    type Future = Out<F>;
    fn alloc(&mut self, n: usize) -> Result<(), ConvError> {
        self.m2a.0 += n;
        Ok(())
    }
    fn queue_to_additive(&mut self, x: &[F]) -> Result<Out<F>, ConvError> {
        self.push(false, x)
    }
}
#[async_trait]
impl<F: Field> Flush for Conv<F> {
    type Error = ConvError;
    fn wants_flush(&self) -> bool {
        !self.queue.is_empty()
    }
    async fn flush(&mut self, ctx: &mut Context) -> Result<(), ConvError> {
        self.run(ctx).await
    }
}
pub mod ideal {
    use super::*;
    pub type IdealShareConvertSender<F> = Conv<F>;
    pub type IdealShareConvertReceiver<F> = Conv<F>;
    pub fn ideal_share_convert<F: Field>(_: Block) -> (Conv<F>, Conv<F>) {
        (Conv::new(true), Conv::new(false))
    }
}
/// Converts for whichever field it is asked to.
macro_rules! typed {
    ($name:ident, $sender:expr) => {
        #[derive(Debug)]
        pub struct $name<T> {
            #[allow(dead_code)]
            ole: T,
            p256: Conv<crate::fields::p256::P256>,
            gf: Conv<crate::fields::gf2_128::Gf2_128>,
        }
        impl<T> $name<T> {
            pub fn new(ole: T) -> Self {
                $name { ole, p256: Conv::new($sender), gf: Conv::new($sender) }
            }
        }
        typed!(@f $name, crate::fields::p256::P256, p256);
        typed!(@f $name, crate::fields::gf2_128::Gf2_128, gf);
        #[async_trait]
        impl<T: Send + Sync> Flush for $name<T> {
            type Error = ConvError;
            fn wants_flush(&self) -> bool {
                self.p256.wants_flush() || self.gf.wants_flush()
            }
            async fn flush(&mut self, ctx: &mut Context) -> Result<(), ConvError> {
                self.p256.run(ctx).await?;
                self.gf.run(ctx).await
            }
        }
    };
    (@f $name:ident, $f:ty, $x:ident) => {
        impl<T> AdditiveToMultiplicative<$f> for $name<T> {
            type Error = ConvError;
            type Future = Out<$f>;
            fn alloc(&mut self, n: usize) -> Result<(), ConvError> {
                AdditiveToMultiplicative::alloc(&mut self.$x, n)
            }
            fn queue_to_multiplicative(&mut self, x: &[$f]) -> Result<Out<$f>, ConvError> {
                self.$x.queue_to_multiplicative(x)
            }
        }
        impl<T> MultiplicativeToAdditive<$f> for $name<T> {
            type Error = ConvError;
            type Future = Out<$f>;
            fn alloc(&mut self, n: usize) -> Result<(), ConvError> {
                MultiplicativeToAdditive::alloc(&mut self.$x, n)
            }
            fn queue_to_additive(&mut self, x: &[$f]) -> Result<Out<$f>, ConvError> {
                self.$x.queue_to_additive(x)
            }
        }
    };
}
typed!(ShareConversionSender, true);
typed!(ShareConversionReceiver, false);

pub mod ole {
    #[derive(Debug)]
    pub struct Sender<T>(#[allow(dead_code)] T);
    impl<T> Sender<T> {
        pub fn new(_: crate::core::Block, t: T) -> Self {
            Sender(t)
        }
    }
    #[derive(Debug)]
    pub struct Receiver<T>(#[allow(dead_code)] T);
    impl<T> Receiver<T> {
        pub fn new(t: T) -> Self {
            Receiver(t)
        }
    }
}
pub mod ot {
    /// Set up like the real ones, and not used by the conversions.
    macro_rules! unused {
        ($m:ident { $($t:ident($($a:ident),*)),* }) => {
            pub mod $m {
                $(#[derive(Debug, Clone, Copy, Default)]
                pub struct $t;
                impl $t {
                    #[allow(clippy::too_many_arguments, non_camel_case_types)]
                    pub fn new<$($a),*>($(_: $a),*) -> Self {
                        $t
                    }
                })*
                #[derive(Debug, Clone, Copy, Default)]
                pub struct SenderConfig;
                #[derive(Debug, Clone, Copy, Default)]
                pub struct ReceiverConfig;
                #[derive(Debug, Clone, Copy, Default)]
                pub struct FerretConfig;
                #[derive(Debug, Clone, Copy)]
                pub enum LpnType {
                    Regular,
                }
                impl FerretConfig {
                    pub fn builder() -> Self {
                        FerretConfig
                    }
                    pub fn lpn_type(self, _: LpnType) -> Self {
                        self
                    }
                    pub fn build(self) -> Result<Self, std::io::Error> {
                        Ok(self)
                    }
                }
            }
        };
    }
    unused!(chou_orlandi { Sender(), Receiver() });
    unused!(kos { Sender(a, b, c), Receiver(a, b) });
    unused!(ferret { Sender(a, b, c), Receiver(a, b, c) });
    pub mod rcot {
        pub trait RCOTSender<T> {}
        pub trait RCOTReceiver<T, U> {}
        pub mod shared {
            use super::super::ideal::IdealRcot;
            pub struct SharedRCOTSender;
            pub struct SharedRCOTReceiver;
            impl SharedRCOTSender {
                #[allow(clippy::new_ret_no_self)]
                pub fn new<T>(_: T) -> IdealRcot {
                    IdealRcot
                }
            }
            impl SharedRCOTReceiver {
                #[allow(clippy::new_ret_no_self)]
                pub fn new<T>(_: T) -> IdealRcot {
                    IdealRcot
                }
            }
        }
    }
    pub mod rot {
        pub mod any {
            #[derive(Debug)]
            pub struct AnySender<T>(#[allow(dead_code)] T);
            impl<T> AnySender<T> {
                pub fn new(t: T) -> Self {
                    AnySender(t)
                }
            }
            #[derive(Debug)]
            pub struct AnyReceiver<T>(#[allow(dead_code)] T);
            impl<T> AnyReceiver<T> {
                pub fn new(t: T) -> Self {
                    AnyReceiver(t)
                }
            }
        }
        pub mod randomize {
            #[derive(Debug)]
            pub struct RandomizeRCOTSender<T>(#[allow(dead_code)] T);
            impl<T> RandomizeRCOTSender<T> {
                pub fn new(t: T) -> Self {
                    RandomizeRCOTSender(t)
                }
            }
            #[derive(Debug)]
            pub struct RandomizeRCOTReceiver<T>(#[allow(dead_code)] T);
            impl<T> RandomizeRCOTReceiver<T> {
                pub fn new(t: T) -> Self {
                    RandomizeRCOTReceiver(t)
                }
            }
        }
    }
    pub mod ideal {
        use crate::common::{Context, Flush};
        /// An ideal correlated OT; the conversions do not need it.
        #[derive(Debug, Clone, Copy, Default)]
        pub struct IdealRcot;
        impl super::rcot::RCOTSender<crate::core::Block> for IdealRcot {}
        impl super::rcot::RCOTReceiver<bool, crate::core::Block> for IdealRcot {}
        #[async_trait::async_trait]
        impl Flush for IdealRcot {
            type Error = std::io::Error;
            fn wants_flush(&self) -> bool {
                false
            }
            async fn flush(&mut self, _: &mut Context) -> Result<(), Self::Error> {
                Ok(())
            }
        }
    }
}
