From 2e361d43b95c48e585a8b9df4070f19fd6398844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:01 +0000
Subject: [PATCH 1/6] fix: reject consecutive batches whose token ids exceed
 U96::MAX

The id of the last token of a batch was computed with wrapping arithmetic,
so a batch reaching past the end of the id space produced a checkpoint at a
wrapped id: the receiver's balance grew without the tokens being owned, and
tokens of a batch ending at U96::MAX kept their owner after being burnt.
---
 contracts/src/token/erc721/extensions/consecutive.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/contracts/src/token/erc721/extensions/consecutive.rs b/contracts/src/token/erc721/extensions/consecutive.rs
index 03d1a02..748b53e 100644
--- a/contracts/src/token/erc721/extensions/consecutive.rs
+++ b/contracts/src/token/erc721/extensions/consecutive.rs
@@ -313,6 +313,10 @@ impl Erc721Consecutive {
     /// * [`Error::ExceededMaxBatchMint`] - If `batch_size` exceeds
     ///   `max_batch_size` of the contract.
     ///
+    /// # Panics
+    ///
+    /// * If the ids of the batch exceed the range of `U96`.
+    ///
     /// # Events
     ///
     /// * [`ConsecutiveTransfer`].
@@ -341,7 +345,10 @@ impl Erc721Consecutive {
             }
 
             // Push an ownership checkpoint & emit event.
-            let last = next + batch_size - uint!(1_U96);
+            let last = next
+                .checked_add(batch_size)
+                .expect("token ids should not exceed `U96::MAX`")
+                - uint!(1_U96);
             self.sequential_ownership.push(last, to.into())?;
 
             // The invariant required by this function is preserved because the
-- 
2.43.0


From b37ceb03cd3c42c780ec8d4a6cd724c56764bb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:42 +0000
Subject: [PATCH 2/6] fix: reject ERC-1155 batch mints whose summed amounts
 overflow

`Erc1155Supply::_update` summed the minted amounts with wrapping
arithmetic before the checked addition to the overall supply, so a batch
such as ([1, 2], [U256::MAX, 1]) left `total_supply_all` unchanged.
---
 contracts/src/token/erc1155/extensions/supply.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/contracts/src/token/erc1155/extensions/supply.rs b/contracts/src/token/erc1155/extensions/supply.rs
index f0323f5..3fad1d7 100644
--- a/contracts/src/token/erc1155/extensions/supply.rs
+++ b/contracts/src/token/erc1155/extensions/supply.rs
@@ -255,13 +255,11 @@ impl Erc1155Supply {
                     value,
                     "should not exceed `U256::MAX` for `total_supply`",
                 );
+                self.total_supply_all.add_assign_checked(
+                    value,
+                    "should not exceed `U256::MAX` for `total_supply_all`",
+                );
             }
-
-            let total_mint_value = values.iter().sum();
-            self.total_supply_all.add_assign_checked(
-                total_mint_value,
-                "should not exceed `U256::MAX` for `total_supply_all`",
-            );
         }
 
         if to.is_zero() {
-- 
2.43.0


From fb692b28c74fd4b744157d407c2200dc74688f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:42 +0000
Subject: [PATCH 3/6] fix: do not wrap the releasable amount of a vesting
 wallet

When the balance shrank other than by a release, less is vested than
already released and the wrapping subtraction reported a huge releasable
amount instead of failing.
---
 contracts/src/finance/vesting_wallet.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/contracts/src/finance/vesting_wallet.rs b/contracts/src/finance/vesting_wallet.rs
index 9379e92..4b615cd 100644
--- a/contracts/src/finance/vesting_wallet.rs
+++ b/contracts/src/finance/vesting_wallet.rs
@@ -392,9 +392,9 @@ impl IVestingWallet for VestingWallet {
 
     #[selector(name = "releasable")]
     fn releasable_eth(&self) -> U256 {
-        // SAFETY: total vested amount is by definition greater than or equal to
-        // the released amount.
-        self.vested_amount_eth(block::timestamp()) - self.released_eth()
+        self.vested_amount_eth(block::timestamp())
+            .checked_sub(self.released_eth())
+            .expect("released amount should not exceed vested amount")
     }
 
     #[selector(name = "releasable")]
@@ -403,9 +403,11 @@ impl IVestingWallet for VestingWallet {
         token: Address,
     ) -> Result<U256, Self::Error> {
         let vested = self.vested_amount_erc20(token, block::timestamp())?;
-        // SAFETY: total vested amount is by definition greater than or equal to
-        // the released amount.
-        Ok(vested - self.released_erc20(token))
+        // The balance can shrink other than by a release (e.g. rebasing
+        // tokens), leaving less vested than already released.
+        Ok(vested
+            .checked_sub(self.released_erc20(token))
+            .expect("released amount should not exceed vested amount"))
     }
 
     #[selector(name = "release")]
-- 
2.43.0


From ef6d4dd72cb30cdec0b2f152835f12dcb5f7da5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:31 +0000
Subject: [PATCH 4/6] fix: return zero for the remainder of a zero dividend in
 WideUint::ct_rem

---
 lib/crypto/src/arithmetic/uint.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/crypto/src/arithmetic/uint.rs b/lib/crypto/src/arithmetic/uint.rs
index afe6984..bfa5a83 100644
--- a/lib/crypto/src/arithmetic/uint.rs
+++ b/lib/crypto/src/arithmetic/uint.rs
@@ -839,8 +839,14 @@ impl<const N: usize> WideUint<N> {
 
         let mut remainder = Uint::<N>::ZERO;
 
+        // Zero dividend has no bits to process.
+        let num_bits = self.ct_num_bits();
+        if num_bits == 0 {
+            return remainder;
+        }
+
         // Start with the last bit.
-        let mut index = self.ct_num_bits() - 1;
+        let mut index = num_bits - 1;
         loop {
             // Shift the remainder to the left by 1,
             let (result, carry) = remainder.ct_checked_mul2();
-- 
2.43.0


From e89a1afac4015e4a5d0a871c909499b157eb43da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:31 +0000
Subject: [PATCH 5/6] fix: report the bit length of the modulus in
 MODULUS_BIT_SIZE

---
 lib/crypto/src/field/fp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/crypto/src/field/fp.rs b/lib/crypto/src/field/fp.rs
index 1332a9d..246ea87 100644
--- a/lib/crypto/src/field/fp.rs
+++ b/lib/crypto/src/field/fp.rs
@@ -555,7 +555,7 @@ impl<P: FpParams<N>, const N: usize> PrimeField for Fp<P, N> {
     type BigInt = Uint<N>;
 
     const MODULUS: Self::BigInt = P::MODULUS;
-    const MODULUS_BIT_SIZE: usize = <Uint<N> as BigInteger>::BITS;
+    const MODULUS_BIT_SIZE: usize = P::MODULUS.ct_num_bits();
 
     #[inline]
     fn from_bigint(repr: Self::BigInt) -> Self {
-- 
2.43.0


From 3973391f24e00de4e9b70f3500490fe1665f9b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:07 +0000
Subject: [PATCH 6/6] fix: name the underlying token in ERC20InvalidUnderlying

Erc20Wrapper::_recover reported the wrapper's own address as the invalid
token instead of the underlying token whose balance query failed.
---
 contracts/src/token/erc20/extensions/wrapper.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/contracts/src/token/erc20/extensions/wrapper.rs b/contracts/src/token/erc20/extensions/wrapper.rs
index fc4a062..4ea5ef8 100644
--- a/contracts/src/token/erc20/extensions/wrapper.rs
+++ b/contracts/src/token/erc20/extensions/wrapper.rs
@@ -314,11 +314,12 @@ impl Erc20Wrapper {
     ) -> Result<U256, Error> {
         let contract_address = contract::address();
 
-        let underline_token = Erc20Interface::new(self.underlying());
+        let underlying = self.underlying();
+        let underline_token = Erc20Interface::new(underlying);
 
         let underlying_balance = underline_token
             .balance_of(Call::new_in(self), contract_address)
-            .map_err(|_| ERC20InvalidUnderlying { token: contract_address })?;
+            .map_err(|_| ERC20InvalidUnderlying { token: underlying })?;
 
         let value = underlying_balance
             .checked_sub(erc20.total_supply())
-- 
2.43.0

