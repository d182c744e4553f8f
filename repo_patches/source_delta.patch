From 57633d9ec68677e2d9f9d2fb166b4dc0da4cae29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:18 +0000
Subject: [PATCH 1/8] fix: dummy input gates have value 0 in the provers, as in
 the verifiers

A type 2 (dummy) gate of the input layer with a nonzero u field was given the
value u by prover::evaluate but 0 by verifier::verify, so an honest proof was
rejected by the final input check.
---
 src/linear_gkr/prover_fast_track.cpp | 2 +-
 src/traditional_gkr/prover_clogc.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/linear_gkr/prover_fast_track.cpp b/src/linear_gkr/prover_fast_track.cpp
index 8273506..781fd1f 100644
--- a/src/linear_gkr/prover_fast_track.cpp
+++ b/src/linear_gkr/prover_fast_track.cpp
@@ -44,7 +44,7 @@ prime_field::field_element* prover::evaluate()
 		v = C.circuit[0].gates[g].v;
 		ty = C.circuit[0].gates[g].ty;
 		assert(ty == 3 || ty == 2);
-		circuit_value[0][g] = prime_field::field_element(u);
+		circuit_value[0][g] = prime_field::field_element(ty == 3 ? u : 0);
 	}
 	assert(C.total_depth < 1000000);
 	for(int i = 1; i < C.total_depth; ++i)
diff --git a/src/traditional_gkr/prover_clogc.cpp b/src/traditional_gkr/prover_clogc.cpp
index a89cabc..6b69ffb 100644
--- a/src/traditional_gkr/prover_clogc.cpp
+++ b/src/traditional_gkr/prover_clogc.cpp
@@ -44,7 +44,7 @@ prime_field::field_element* prover::evaluate()
 		v = C.circuit[0].gates[g].v;
 		ty = C.circuit[0].gates[g].ty;
 		assert(ty == 3 || ty == 2);
-		circuit_value[0][g] = prime_field::field_element(u);
+		circuit_value[0][g] = prime_field::field_element(ty == 3 ? u : 0);
 	}
 	assert(C.total_depth < 1000000);
 	for(int i = 1; i < C.total_depth; ++i)
-- 
2.43.0


From b78a6d8e6a9611444dc54a2e51edf047bdd2ee96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:35 +0000
Subject: [PATCH 2/8] fix: the verifiers evaluate the output claim themselves

verify() took the value of the output layer's multilinear extension at the
random point from the prover (prover::V_res), so the claimed outputs returned by
prover::evaluate were never checked: a prover could return arbitrary outputs and
still be accepted.  Compute it from the claimed outputs with V_in instead.
---
 src/linear_gkr/verifier_fast_track.cpp       | 2 +-
 src/traditional_gkr/verifier_bc_clogc.cpp    | 2 +-
 src/traditional_gkr/verifier_traditional.cpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/linear_gkr/verifier_fast_track.cpp b/src/linear_gkr/verifier_fast_track.cpp
index a61bd56..34ed19c 100644
--- a/src/linear_gkr/verifier_fast_track.cpp
+++ b/src/linear_gkr/verifier_fast_track.cpp
@@ -443,7 +443,7 @@ bool verifier::verify()
 	
 	std::chrono::high_resolution_clock::time_point t_a = std::chrono::high_resolution_clock::now();
 	std::cerr << "Calc V_output(r)" << std::endl;
-	prime_field::field_element a_0 = p -> V_res(one_minus_r_0, r_0, result, C.circuit[C.total_depth - 1].bit_length, (1 << (C.circuit[C.total_depth - 1].bit_length)));
+	prime_field::field_element a_0 = V_in(r_0, one_minus_r_0, result, C.circuit[C.total_depth - 1].bit_length, (1 << (C.circuit[C.total_depth - 1].bit_length)));
 	
 	std::chrono::high_resolution_clock::time_point t_b = std::chrono::high_resolution_clock::now();
 
diff --git a/src/traditional_gkr/verifier_bc_clogc.cpp b/src/traditional_gkr/verifier_bc_clogc.cpp
index f6a7edd..4ee46f3 100644
--- a/src/traditional_gkr/verifier_bc_clogc.cpp
+++ b/src/traditional_gkr/verifier_bc_clogc.cpp
@@ -257,7 +257,7 @@ bool verifier::verify()
 	
 	std::chrono::high_resolution_clock::time_point t_a = std::chrono::high_resolution_clock::now();
 	std::cerr << "Calc V_output(r)" << std::endl;
-	prime_field::field_element a_0 = p -> V_res(one_minus_r_0, r_0, one_minus_r_b_0, r_b_0, result, C.blocks[0].circuit[C.blocks[0].total_depth - 1].bit_length, C.total_blocks_binary_length, (1 << (C.blocks[0].circuit[C.blocks[0].total_depth - 1].bit_length + C.total_blocks_binary_length)));
+	prime_field::field_element a_0 = V_in(r_b_0, one_minus_r_b_0, r_0, one_minus_r_0, result, C.total_blocks_binary_length, C.blocks[0].circuit[C.blocks[0].total_depth - 1].bit_length, (1 << (C.blocks[0].circuit[C.blocks[0].total_depth - 1].bit_length + C.total_blocks_binary_length)));
 	delete[] result;
 	std::chrono::high_resolution_clock::time_point t_b = std::chrono::high_resolution_clock::now();
 
diff --git a/src/traditional_gkr/verifier_traditional.cpp b/src/traditional_gkr/verifier_traditional.cpp
index 6776232..05d5262 100644
--- a/src/traditional_gkr/verifier_traditional.cpp
+++ b/src/traditional_gkr/verifier_traditional.cpp
@@ -220,7 +220,7 @@ bool verifier::verify()
 	
 	std::chrono::high_resolution_clock::time_point t_a = std::chrono::high_resolution_clock::now();
 	//std::cerr << "Calc V_output(r)" << std::endl;
-	prime_field::field_element a_0 = p -> V_res(one_minus_r_0, r_0, result, C.circuit[C.total_depth - 1].bit_length, (1 << (C.circuit[C.total_depth - 1].bit_length)));
+	prime_field::field_element a_0 = V_in(r_0, one_minus_r_0, result, C.circuit[C.total_depth - 1].bit_length, (1 << (C.circuit[C.total_depth - 1].bit_length)));
 	
 	std::chrono::high_resolution_clock::time_point t_b = std::chrono::high_resolution_clock::now();
 
-- 
2.43.0


From 3a26a2fddd338fb01645d3e655bdd4917ae032f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:36 +0000
Subject: [PATCH 3/8] fix: bind V(u) and keep r_v random in the input-layer
 relay sumcheck

On the last layer (direct relay gates) verify() replaced every second-phase
challenge by 0 and added direct_relay_value * p->v_u to the rounds without ever
comparing that v_u with the one returned by sumcheck_finalize.  Either one lets
a prover move an arbitrary false claim through the second phase and be accepted.
Keep the random challenges, read the claimed V(u) once before they are revealed,
and reject if the final claim differs.
---
 src/linear_gkr/verifier_fast_track.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/linear_gkr/verifier_fast_track.cpp b/src/linear_gkr/verifier_fast_track.cpp
index 34ed19c..8379859 100644
--- a/src/linear_gkr/verifier_fast_track.cpp
+++ b/src/linear_gkr/verifier_fast_track.cpp
@@ -495,14 +495,14 @@ bool verifier::verify()
 		std::cerr << "Bound v start" << std::endl;
 		t0 = std::chrono::high_resolution_clock::now();
 		p -> sumcheck_phase2_init(previous_random, r_u, one_minus_r_u);
+		//the relay term uses V(u), so the prover must fix it before r_v is revealed
+		const prime_field::field_element claimed_v_u = p -> v_u;
 		previous_random = prime_field::field_element(0);
 		for(int j = 0; j < C.circuit[i - 1].bit_length; ++j)
 		{
-			if(i == 1)
-				r_v[j] = prime_field::field_element(0);
 			quadratic_poly poly = p -> sumcheck_phase2_update(previous_random, j);
 			previous_random = r_v[j];
-			if(poly.eval(0) + poly.eval(1) + direct_relay_value * p -> v_u != alpha_beta_sum)
+			if(poly.eval(0) + poly.eval(1) + direct_relay_value * claimed_v_u != alpha_beta_sum)
 			{
 				fprintf(stderr, "Verification fail, phase2, circuit level %d, current bit %d\n", i, j);
 				return false;
@@ -510,7 +510,7 @@ bool verifier::verify()
 			else
 			{
 			}
-			alpha_beta_sum = poly.eval(r_v[j]) + direct_relay_value * p -> v_u;
+			alpha_beta_sum = poly.eval(r_v[j]) + direct_relay_value * claimed_v_u;
 		}
 		t1 = std::chrono::high_resolution_clock::now();
 		time_span = std::chrono::duration_cast<std::chrono::duration<double>>(t1 - t0);
@@ -519,6 +519,11 @@ bool verifier::verify()
 		auto final_claims = p -> sumcheck_finalize(previous_random);
 		auto v_u = final_claims.first;
 		auto v_v = final_claims.second;
+		if(v_u != claimed_v_u)
+		{
+			fprintf(stderr, "Verification fail, inconsistent claim for u, circuit level %d\n", i);
+			return false;
+		}
 
 		beta_init(i, alpha, beta, r_0, r_1, r_u, r_v, one_minus_r_0, one_minus_r_1, one_minus_r_u, one_minus_r_v);
 		auto mult_value = mult(i);
-- 
2.43.0


From 011812f57edd39a8f0444bd0aedb1b2b5953401f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:04 +0000
Subject: [PATCH 4/8] fix: negative integers map to their residue modulo the
 field prime

field_element(int) sign-extended a negative argument to 64 bits, so -1 became
2^64 - 1 instead of p - 1 and negative circuit inputs had the wrong value.
---
 src/linear_gkr/prime_field.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/linear_gkr/prime_field.cpp b/src/linear_gkr/prime_field.cpp
index 23edac2..96a9a9d 100644
--- a/src/linear_gkr/prime_field.cpp
+++ b/src/linear_gkr/prime_field.cpp
@@ -511,7 +511,10 @@ namespace prime_field
 	}
 	field_element::field_element(const int x)
 	{
-		value = (u256b)(unsigned long long)x;
+		if(x >= 0)
+			value = (u256b)(unsigned long long)x;
+		else
+			value = mod_512 - (u512b)(u256b)(unsigned long long)(-(long long)x);
 	}
 	field_element::field_element(const unsigned long long x)
 	{
-- 
2.43.0


From 39ed4946d329f339834868cda2800b3702671b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:24 +0000
Subject: [PATCH 5/8] fix: 256-bit subtraction and bit test at limb boundaries

operator- added the one's complement without the +1 (a-b-1); testBit
shifted a 64-bit limb by 64 for bit 64 and read the wrong limb for
bits 64 and 128.
---
 src/linear_gkr/prime_field.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/linear_gkr/prime_field.cpp b/src/linear_gkr/prime_field.cpp
index 96a9a9d..624a7f1 100644
--- a/src/linear_gkr/prime_field.cpp
+++ b/src/linear_gkr/prime_field.cpp
@@ -59,7 +59,7 @@ namespace prime_field
 		not_x.lo = ~x.lo;
 		not_x.mid = ~x.mid;
 		not_x.hi = ~x.hi;
-		return *this + not_x;
+		return *this + not_x + (u256b)(unsigned long long)1;
 	}
 
 	u256b u256b::operator * (const u256b &x) const
@@ -192,11 +192,11 @@ namespace prime_field
 
 	int u256b::testBit(int i)
 	{
-		if(i <= 64)
+		if(i < 64)
 		{
 			return (lo >> i) & 1;
 		}
-		else if(i <= 128)
+		else if(i < 128)
 		{
 			return (mid >> (i - 64)) & 1;
 		}
-- 
2.43.0


From fc893fc014545f2df91ecc545b111cf32fe8c337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:24 +0000
Subject: [PATCH 6/8] fix: release the digit buffer of the integer export with
 delete[]

---
 src/linear_gkr/prime_field.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/linear_gkr/prime_field.cpp b/src/linear_gkr/prime_field.cpp
index 624a7f1..b854718 100644
--- a/src/linear_gkr/prime_field.cpp
+++ b/src/linear_gkr/prime_field.cpp
@@ -623,7 +623,7 @@ namespace prime_field
 		}
 		str_value[256] = 0;
 		mpz_class ret(str_value, 2);
-		delete str_value;
+		delete[] str_value;
 		return ret;
 	} 
 	bool field_element::operator == (const field_element &b) const
-- 
2.43.0


From 46fbc9bffd6bcd2c4db9cc9adb23167ea21c5a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:00 +0000
Subject: [PATCH 7/8] fix: data-parallel verifier computes the weight of the
 block index itself

The final check of a layer multiplied the gate polynomial by p->beta_blk_val, a value stored by
the prover, so a prover could scale it to make a wrong output pass.
---
 src/traditional_gkr/verifier_bc_clogc.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/traditional_gkr/verifier_bc_clogc.cpp b/src/traditional_gkr/verifier_bc_clogc.cpp
index 4ee46f3..73d9235 100644
--- a/src/traditional_gkr/verifier_bc_clogc.cpp
+++ b/src/traditional_gkr/verifier_bc_clogc.cpp
@@ -374,7 +374,12 @@ bool verifier::verify()
 //		std::cout << "mult_value = " << mult_value.to_string(10) << std::endl;
 //		std::cout << "add_value = " << add_value.to_string(10) << std::endl;
 
-		if(alpha_beta_sum != p -> beta_blk_val * (add_value * (v_u + v_v) + mult_value * v_u * v_v))
+		//the weight of the block index is fixed by the challenges, the prover's copy must not be trusted
+		prime_field::field_element beta_blk_val = prime_field::field_element(1);
+		for(int j = 0; j < C.total_blocks_binary_length; ++j)
+			beta_blk_val = beta_blk_val * (one_minus_r_b_0[j] * one_minus_r_b[j] + r_b_0[j] * r_b[j]);
+
+		if(alpha_beta_sum != beta_blk_val * (add_value * (v_u + v_v) + mult_value * v_u * v_v))
 		{
 			fprintf(stderr, "Verification fail, semi final, circuit level %d\n", i);
 			return false;
-- 
2.43.0


From 9b0be97e683926cfa318cb0e85ae856bc3c293b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:00 +0000
Subject: [PATCH 8/8] fix: data-parallel prover reads no second block when
 there is only one

sumcheck_phase1_init read block_v_value and block_beta_value past their end for
block_binary_length == 0, so the honest proof of a single copy depended on foreign memory.
---
 src/traditional_gkr/prover_bc_clogc.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/traditional_gkr/prover_bc_clogc.cpp b/src/traditional_gkr/prover_bc_clogc.cpp
index a632193..2e0b0b5 100644
--- a/src/traditional_gkr/prover_bc_clogc.cpp
+++ b/src/traditional_gkr/prover_bc_clogc.cpp
@@ -352,13 +352,16 @@ void prover::sumcheck_phase1_init(prime_field::field_element previous_random)
 	for(int i = 0; i < total_uv; ++i)
 	{
 		prime_field::field_element one_value, zero_value;
-		one_value = block_v_value[1 << length_u | i];
 		zero_value = block_v_value[i];
+		//a single block has no block index to bind
+		one_value = block_binary_length == 0 ? zero_value : block_v_value[1 << length_u | i];
 
 		V_mult_add[i] = (one_value - zero_value) * previous_random + zero_value;
 		V_mult_add_copy[i] = V_mult_add[i];
 	}
-	beta_blk_val = (block_beta_value[1] - block_beta_value[0]) * previous_random + block_beta_value[0];
+	beta_blk_val = block_beta_value[0];
+	if(block_binary_length != 0)
+		beta_blk_val = (block_beta_value[1] - block_beta_value[0]) * previous_random + block_beta_value[0];
 	
 	std::chrono::high_resolution_clock::time_point t1 = std::chrono::high_resolution_clock::now();
 	std::chrono::duration<double> time_span = std::chrono::duration_cast<std::chrono::duration<double>>(t1 - t0);
-- 
2.43.0

