From a4384d6779f14ac534af553c95db623aeda89029 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 15:44:47 +0000
Subject: [PATCH 01/22] fix: linear verifier accepted false claims at the input
 copy layer

The copy layer's second-operand challenges are all zero, so the round
polynomials of phase 2 could absorb any difference between the phase 1
claim and direct_relay * v_u. A prover could prove the outputs of
different inputs and still open the true input at the end.
---
 src/linear_gkr/verifier_fast_track.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/linear_gkr/verifier_fast_track.cpp b/src/linear_gkr/verifier_fast_track.cpp
index a61bd56..41839db 100644
--- a/src/linear_gkr/verifier_fast_track.cpp
+++ b/src/linear_gkr/verifier_fast_track.cpp
@@ -494,6 +494,7 @@ bool verifier::verify()
 		
 		std::cerr << "Bound v start" << std::endl;
 		t0 = std::chrono::high_resolution_clock::now();
+		prime_field::field_element phase1_claim = alpha_beta_sum;
 		p -> sumcheck_phase2_init(previous_random, r_u, one_minus_r_u);
 		previous_random = prime_field::field_element(0);
 		for(int j = 0; j < C.circuit[i - 1].bit_length; ++j)
@@ -519,6 +520,12 @@ bool verifier::verify()
 		auto final_claims = p -> sumcheck_finalize(previous_random);
 		auto v_u = final_claims.first;
 		auto v_v = final_claims.second;
+		//the copy layer has no second operand: its phase 1 claim must be about v_u alone
+		if(i == 1 && phase1_claim != direct_relay_value * v_u)
+		{
+			fprintf(stderr, "Verification fail, copy layer\n");
+			return false;
+		}
 
 		beta_init(i, alpha, beta, r_0, r_1, r_u, r_v, one_minus_r_0, one_minus_r_1, one_minus_r_u, one_minus_r_v);
 		auto mult_value = mult(i);
-- 
2.43.0


From 92719a12e4ea3da97df7135c041a72845a899628 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 15:45:02 +0000
Subject: [PATCH 02/22] fix: verifiers check the claimed output against its
 evaluation

The verifiers took the prover's evaluation of the output at the random
point on trust, so a prover could return any output vector and prove the
true one.
---
 src/linear_gkr/verifier_fast_para_track.cpp  | 5 +++++
 src/linear_gkr/verifier_fast_track.cpp       | 5 +++++
 src/traditional_gkr/verifier_bc_clogc.cpp    | 5 +++++
 src/traditional_gkr/verifier_traditional.cpp | 5 +++++
 4 files changed, 20 insertions(+)

diff --git a/src/linear_gkr/verifier_fast_para_track.cpp b/src/linear_gkr/verifier_fast_para_track.cpp
index f43624d..5b075cb 100644
--- a/src/linear_gkr/verifier_fast_para_track.cpp
+++ b/src/linear_gkr/verifier_fast_para_track.cpp
@@ -232,6 +232,11 @@ bool verifier::verify()
 	std::chrono::duration<double> ts = std::chrono::duration_cast<std::chrono::duration<double>>(t_b - t_a);
 	std::cerr << "	Time: " << ts.count() << std::endl;
 	
+	if(a_0 != V_in(r_0, one_minus_r_0, result, C.circuit[C.total_depth - 1].bit_length, (1 << (C.circuit[C.total_depth - 1].bit_length))))
+	{
+		fprintf(stderr, "Verification fail, output evaluation\n");
+		return false;
+	}
 	a_0 = alpha * a_0;
 	prime_field::field_element a_1 = prime_field::field_element(0); //* beta
 
diff --git a/src/linear_gkr/verifier_fast_track.cpp b/src/linear_gkr/verifier_fast_track.cpp
index 41839db..6c00862 100644
--- a/src/linear_gkr/verifier_fast_track.cpp
+++ b/src/linear_gkr/verifier_fast_track.cpp
@@ -449,6 +449,11 @@ bool verifier::verify()
 
 	std::chrono::duration<double> ts = std::chrono::duration_cast<std::chrono::duration<double>>(t_b - t_a);
 	std::cerr << "	Time: " << ts.count() << std::endl;
+	if(a_0 != V_in(r_0, one_minus_r_0, result, C.circuit[C.total_depth - 1].bit_length, (1 << (C.circuit[C.total_depth - 1].bit_length))))
+	{
+		fprintf(stderr, "Verification fail, output evaluation\n");
+		return false;
+	}
 	a_0 = alpha * a_0;
 
 	prime_field::field_element alpha_beta_sum = a_0; //+ a_1
diff --git a/src/traditional_gkr/verifier_bc_clogc.cpp b/src/traditional_gkr/verifier_bc_clogc.cpp
index f6a7edd..f925f18 100644
--- a/src/traditional_gkr/verifier_bc_clogc.cpp
+++ b/src/traditional_gkr/verifier_bc_clogc.cpp
@@ -258,6 +258,11 @@ bool verifier::verify()
 	std::chrono::high_resolution_clock::time_point t_a = std::chrono::high_resolution_clock::now();
 	std::cerr << "Calc V_output(r)" << std::endl;
 	prime_field::field_element a_0 = p -> V_res(one_minus_r_0, r_0, one_minus_r_b_0, r_b_0, result, C.blocks[0].circuit[C.blocks[0].total_depth - 1].bit_length, C.total_blocks_binary_length, (1 << (C.blocks[0].circuit[C.blocks[0].total_depth - 1].bit_length + C.total_blocks_binary_length)));
+	if(a_0 != V_in(r_b_0, one_minus_r_b_0, r_0, one_minus_r_0, result, C.total_blocks_binary_length, C.blocks[0].circuit[C.blocks[0].total_depth - 1].bit_length, (1 << (C.blocks[0].circuit[C.blocks[0].total_depth - 1].bit_length + C.total_blocks_binary_length))))
+	{
+		fprintf(stderr, "Verification fail, output evaluation\n");
+		return false;
+	}
 	delete[] result;
 	std::chrono::high_resolution_clock::time_point t_b = std::chrono::high_resolution_clock::now();
 
diff --git a/src/traditional_gkr/verifier_traditional.cpp b/src/traditional_gkr/verifier_traditional.cpp
index 6776232..34d4bad 100644
--- a/src/traditional_gkr/verifier_traditional.cpp
+++ b/src/traditional_gkr/verifier_traditional.cpp
@@ -226,6 +226,11 @@ bool verifier::verify()
 
 	std::chrono::duration<double> ts = std::chrono::duration_cast<std::chrono::duration<double>>(t_b - t_a);
 	//std::cerr << "	Time: " << ts.count() << std::endl;
+	if(a_0 != V_in(r_0, one_minus_r_0, result, C.circuit[C.total_depth - 1].bit_length, (1 << (C.circuit[C.total_depth - 1].bit_length))))
+	{
+		fprintf(stderr, "Verification fail, output evaluation\n");
+		return false;
+	}
 	a_0 = alpha * a_0;
 	prime_field::field_element a_1 = prime_field::field_element(0); //* beta
 
-- 
2.43.0


From e85e9a2d261ae7b47f37a71b20b9211f833dcea6 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 15:45:02 +0000
Subject: [PATCH 03/22] fix: blocked verifier computes the copy-index weight
 itself

It multiplied the layer equation by a value stored in the prover object,
so a prover choosing that value could satisfy any layer equation.
---
 src/traditional_gkr/verifier_bc_clogc.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/traditional_gkr/verifier_bc_clogc.cpp b/src/traditional_gkr/verifier_bc_clogc.cpp
index f925f18..0c23b21 100644
--- a/src/traditional_gkr/verifier_bc_clogc.cpp
+++ b/src/traditional_gkr/verifier_bc_clogc.cpp
@@ -379,7 +379,11 @@ bool verifier::verify()
 //		std::cout << "mult_value = " << mult_value.to_string(10) << std::endl;
 //		std::cout << "add_value = " << add_value.to_string(10) << std::endl;
 
-		if(alpha_beta_sum != p -> beta_blk_val * (add_value * (v_u + v_v) + mult_value * v_u * v_v))
+		prime_field::field_element beta_blk_val = prime_field::field_element(1);
+		for(int j = 0; j < C.total_blocks_binary_length; ++j)
+			beta_blk_val = beta_blk_val * (r_b_0[j] * r_b[j] + one_minus_r_b_0[j] * one_minus_r_b[j]);
+
+		if(alpha_beta_sum != beta_blk_val * (add_value * (v_u + v_v) + mult_value * v_u * v_v))
 		{
 			fprintf(stderr, "Verification fail, semi final, circuit level %d\n", i);
 			return false;
-- 
2.43.0


From 97f377d7199f1b969eb92fb716328759a88e2028 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 15:45:35 +0000
Subject: [PATCH 04/22] fix: multi-threaded prover underflowed in phase 2

A difference was reduced without adding the modulus first, so it wrapped
around 2^512 whenever the second table was larger (sparse layers).
---
 src/linear_gkr/prover_fast_para_track.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/linear_gkr/prover_fast_para_track.cpp b/src/linear_gkr/prover_fast_para_track.cpp
index 8ca6cba..c78bc87 100644
--- a/src/linear_gkr/prover_fast_para_track.cpp
+++ b/src/linear_gkr/prover_fast_para_track.cpp
@@ -629,13 +629,13 @@ void phase2_update_func(prover *p, int id, int total_uv, int current_bit, prime_
 		{
 			
 			p -> nV_mult_add[i].b.value = (p -> V_mult_add[g_zero].a.value * previous_random.value + p -> V_mult_add[g_zero].b.value) % prime_field::mod;
-			p -> nV_mult_add[i].a.value = (p -> V_mult_add[g_one].a.value * previous_random.value + p -> V_mult_add[g_one].b.value - p -> nV_mult_add[i].b.value) % prime_field::mod;
+			p -> nV_mult_add[i].a.value = (p -> V_mult_add[g_one].a.value * previous_random.value + p -> V_mult_add[g_one].b.value - p -> nV_mult_add[i].b.value + prime_field::mod) % prime_field::mod;
 
 			p -> naddV_array[i].b.value = (p -> addV_array[g_zero].a.value * previous_random.value + p -> addV_array[g_zero].b.value) % prime_field::mod;
-			p -> naddV_array[i].a.value = (p -> addV_array[g_one].a.value * previous_random.value + p -> addV_array[g_one].b.value - p -> naddV_array[i].b.value) % prime_field::mod;
+			p -> naddV_array[i].a.value = (p -> addV_array[g_one].a.value * previous_random.value + p -> addV_array[g_one].b.value - p -> naddV_array[i].b.value + prime_field::mod) % prime_field::mod;
 
 			p -> nadd_mult_sum[i].b.value = (p -> add_mult_sum[g_zero].a.value * previous_random.value + p -> add_mult_sum[g_zero].b.value) % prime_field::mod;
-			p -> nadd_mult_sum[i].a.value = (p -> add_mult_sum[g_one].a.value * previous_random.value + p -> add_mult_sum[g_one].b.value - p -> nadd_mult_sum[i].b.value) % prime_field::mod;
+			p -> nadd_mult_sum[i].a.value = (p -> add_mult_sum[g_one].a.value * previous_random.value + p -> add_mult_sum[g_one].b.value - p -> nadd_mult_sum[i].b.value + prime_field::mod) % prime_field::mod;
 		}
 
 		if(i % 8 == 0 || i + 1 == (total_uv >> 1))
-- 
2.43.0


From faffb6f8abd280479427aef416494849998ee25f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 15:45:44 +0000
Subject: [PATCH 05/22] fix: multi-threaded prover read weight tables other
 threads were writing

beta_g_sum and beta_u are filled slice by slice by the worker threads and
read at arbitrary indices by all of them; fill them in a region of their
own, joined before the tables are used.
---
 src/linear_gkr/prover_fast_para_track.cpp | 55 ++++++++++++++---------
 1 file changed, 33 insertions(+), 22 deletions(-)

diff --git a/src/linear_gkr/prover_fast_para_track.cpp b/src/linear_gkr/prover_fast_para_track.cpp
index c78bc87..e326136 100644
--- a/src/linear_gkr/prover_fast_para_track.cpp
+++ b/src/linear_gkr/prover_fast_para_track.cpp
@@ -182,6 +182,23 @@ prover::~prover()
 {
 }
 
+void phase1_beta_func(prover* p, int id)
+{
+	int first_half = p -> length_g >> 1;
+	int mask_fhalf = (1 << first_half) - 1;
+	int bs = (1 << p -> length_g) / NUM_THREADS;
+	if(bs == 0)
+		bs = 1;
+	int st = bs * id, ed = bs * (id + 1);
+	if(ed > (1 << p -> length_g))
+		ed = (1 << p -> length_g);
+	for(int i = st; i < ed; ++i)
+	{
+		p -> beta_g_sum[i].value = (p -> beta_g_r0_fhalf[i & mask_fhalf].value * p -> beta_g_r0_shalf[i >> first_half].value 
+							 + p -> beta_g_r1_fhalf[i & mask_fhalf].value * p -> beta_g_r1_shalf[i >> first_half].value) % prime_field::mod;
+	}
+}
+
 void phase1_init_func(prover* p, int id)
 {
 	int total_uv = (1 << (p -> C.circuit[p -> sumcheck_layer_id - 1].bit_length));
@@ -206,18 +223,6 @@ void phase1_init_func(prover* p, int id)
 	}
 	
 
-	int mask_fhalf = (1 << first_half) - 1;
-	bs = (1 << p -> length_g) / NUM_THREADS;
-	if(bs == 0)
-		bs = 1;
-	st = bs * id, ed = bs * (id + 1);
-	if(ed > (1 << p -> length_g))
-		ed = (1 << p -> length_g);
-	for(int i = st; i < ed; ++i)
-	{
-		p -> beta_g_sum[i].value = (p -> beta_g_r0_fhalf[i & mask_fhalf].value * p -> beta_g_r0_shalf[i >> first_half].value 
-							 + p -> beta_g_r1_fhalf[i & mask_fhalf].value * p -> beta_g_r1_shalf[i >> first_half].value) % prime_field::mod;
-	}
 	
 	/*
 
@@ -306,6 +311,10 @@ void prover::sumcheck_phase1_init()
 
 	std::thread threads[NUM_THREADS];
 
+	for(int i = 0; i < NUM_THREADS; ++i)
+		threads[i] = std::thread(phase1_beta_func, this, i);
+	for(int i = 0; i < NUM_THREADS; ++i)
+		threads[i].join();
 	for(int i = 0; i < NUM_THREADS; ++i)
 		threads[i] = std::thread(phase1_init_func, this, i);
 	for(int i = 0; i < NUM_THREADS; ++i)
@@ -411,27 +420,25 @@ quadratic_poly prover::sumcheck_phase1_update(prime_field::field_element previou
 	return ret;
 }
 
-void phase2_init_func(prover* p, int id)
+void phase2_beta_func(prover* p, int id)
 {
-	int first_half = p -> length_u >> 1, second_half = p -> length_u - first_half;
+	int first_half = p -> length_u >> 1;
 	int mask_fhalf = (1 << first_half) - 1;
-	
-	int bs, st, ed;
-	
-	bs = (1 << p -> length_u) / NUM_THREADS;
+	int bs = (1 << p -> length_u) / NUM_THREADS;
 	if(bs == 0)
 		bs = 1;
-	st = id * bs;
-	ed = (id + 1) * bs;
+	int st = id * bs, ed = (id + 1) * bs;
 	if(ed > (1 << p -> length_u))
 		ed = (1 << p -> length_u);
-	
 	for(int i = st; i < ed; ++i)
 	{
 		p -> beta_u[i].value = p -> beta_u_fhalf[i & mask_fhalf].value * p -> beta_u_shalf[i >> first_half].value % prime_field::mod;
 	}
+}
 
-	
+void phase2_init_func(prover* p, int id)
+{
+	int bs, st, ed;
 	int total_uv = (1 << p -> C.circuit[p -> sumcheck_layer_id - 1].bit_length);
 	int total_g = (1 << p -> C.circuit[p -> sumcheck_layer_id].bit_length);
 	prime_field::field_element zero = prime_field::field_element(0);
@@ -589,6 +596,10 @@ void prover::sumcheck_phase2_init(prime_field::field_element previous_random, co
 	
 	total_uv = (1 << C.circuit[sumcheck_layer_id - 1].bit_length);
 	std::thread threads[NUM_THREADS];
+	for(int i = 0; i < NUM_THREADS; ++i)
+		threads[i] = std::thread(phase2_beta_func, this, i);
+	for(int i = 0; i < NUM_THREADS; ++i)
+		threads[i].join();
 	for(int i = 0; i < NUM_THREADS; ++i)
 		threads[i] = std::thread(phase2_init_func, this, i);
 	
-- 
2.43.0


From 09a2cb3d367033eb8adf72b4d1adcbc3903f8e38 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 15:45:56 +0000
Subject: [PATCH 06/22] fix: generated matrix-multiplication circuit multiplied
 the wrong inputs

Mode 4 wired gate (i,j,k) to inputs i*k and k*j, both in the first matrix;
connect it to A[i][k] and B[k][j].
---
 bin/gen.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/gen.cpp b/bin/gen.cpp
index 36ec9ae..1db838b 100644
--- a/bin/gen.cpp
+++ b/bin/gen.cpp
@@ -239,7 +239,7 @@ int main(int argc, char **argv)
 				for(int k = 0; k < mat_sz; ++k)
 				{
 					int id = i * mat_sz * mat_sz + j * mat_sz + k;
-					int a = i * k, b = k * j;
+					int a = i * mat_sz + k, b = mat_sz * mat_sz + k * mat_sz + j;
 					printf("%d %d %d %d ", 1, id, a, b);
 				}
 			}
-- 
2.43.0


From 17781fb6f4b0f9224d9a6595162f909d2d1d6343 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 16:35:06 +0000
Subject: [PATCH 07/22] fix: multi-threaded prover let sums grow beyond what
 the reduction supports

u512b::operator% is exact below 2^508 (about 2.9 p^2); the multi-threaded
prover accumulated up to 31 products before reducing, so honest proofs of
layers with many gates on one wire were rejected. Reduce after every
product, as the single-threaded prover does.
---
 src/linear_gkr/prover_fast_para_track.cpp | 41 +++++------------------
 1 file changed, 9 insertions(+), 32 deletions(-)

diff --git a/src/linear_gkr/prover_fast_para_track.cpp b/src/linear_gkr/prover_fast_para_track.cpp
index e326136..ed25af3 100644
--- a/src/linear_gkr/prover_fast_para_track.cpp
+++ b/src/linear_gkr/prover_fast_para_track.cpp
@@ -369,22 +369,11 @@ void phase1_update_func(prover *p, int id, int total_uv, int current_bit, prime_
 			p -> nadd_mult_sum[i].a.value = (p -> add_mult_sum[g_one].a.value * previous_random.value + p -> add_mult_sum[g_one].b.value - p -> nadd_mult_sum[i].b.value + prime_field::mod) % prime_field::mod;
 
 		}
-		if(i % 4 == 0 || i + 1 == (total_uv >> 1))
-		{
-			p -> rets[id].a.value = (p -> rets[id].a.value + p -> nadd_mult_sum[i].a.value * p -> nV_mult_add[i].a.value) % prime_field::mod;
-			p -> rets[id].b.value = (p -> rets[id].b.value + p -> nadd_mult_sum[i].a.value * p -> nV_mult_add[i].b.value + p -> nadd_mult_sum[i].b.value * p -> nV_mult_add[i].a.value
+		p -> rets[id].a.value = (p -> rets[id].a.value + p -> nadd_mult_sum[i].a.value * p -> nV_mult_add[i].a.value) % prime_field::mod;
+		p -> rets[id].b.value = (p -> rets[id].b.value + p -> nadd_mult_sum[i].a.value * p -> nV_mult_add[i].b.value + p -> nadd_mult_sum[i].b.value * p -> nV_mult_add[i].a.value
 									  + p -> naddV_array[i].a.value) % prime_field::mod;
-			p -> rets[id].c.value = (p -> rets[id].c.value + p -> nadd_mult_sum[i].b.value * p -> nV_mult_add[i].b.value
+		p -> rets[id].c.value = (p -> rets[id].c.value + p -> nadd_mult_sum[i].b.value * p -> nV_mult_add[i].b.value
 									  + p -> naddV_array[i].b.value) % prime_field::mod;
-		}
-		else
-		{
-			p -> rets[id].a.value = (p -> rets[id].a.value + p -> nadd_mult_sum[i].a.value * p -> nV_mult_add[i].a.value);
-			p -> rets[id].b.value = (p -> rets[id].b.value + p -> nadd_mult_sum[i].a.value * p -> nV_mult_add[i].b.value + p -> nadd_mult_sum[i].b.value * p -> nV_mult_add[i].a.value
-									  + p -> naddV_array[i].a.value);
-			p -> rets[id].c.value = (p -> rets[id].c.value + p -> nadd_mult_sum[i].b.value * p -> nV_mult_add[i].b.value
-									  + p -> naddV_array[i].b.value);
-		}
 	}
 
 	p -> rets[id].a.value = p -> rets[id].a.value % prime_field::mod;
@@ -528,7 +517,7 @@ void phase2_init_func(prover* p, int id)
 				{
 					p -> add_mult_sum[v].b.value = p -> add_mult_sum[v].b.value + (p -> beta_g_sum[g].value * p -> beta_u[u].value % prime_field::mod * p -> v_u.value) % prime_field::mod;
 					p -> add_mult_sum_counter[v]++;
-					if(p -> add_mult_sum_counter[v] > 30)
+					if(p -> add_mult_sum_counter[v] > 0)
 					{
 						p -> add_mult_sum_counter[v] = 0;
 						p -> add_mult_sum[v].b.value = p -> add_mult_sum[v].b.value % prime_field::mod;
@@ -540,14 +529,14 @@ void phase2_init_func(prover* p, int id)
 					p -> addV_array[v].b.value = ((p -> beta_g_sum[g].value * p -> beta_u[u].value % prime_field::mod) * p -> v_u.value + p -> addV_array[v].b.value);
 
 					p -> add_mult_sum_counter[v]++;
-					if(p -> add_mult_sum_counter[v] > 30)
+					if(p -> add_mult_sum_counter[v] > 0)
 					{
 						p -> add_mult_sum_counter[v] = 0;
 						p -> add_mult_sum[v].b.value = p -> add_mult_sum[v].b.value % prime_field::mod;
 					}
 
 					p -> addV_array_counter[v]++;
-					if(p -> addV_array_counter[v] > 30)
+					if(p -> addV_array_counter[v] > 0)
 					{
 						p -> addV_array_counter[v] = 0;
 						p -> addV_array[v].b.value = p -> addV_array[v].b.value % prime_field::mod;
@@ -649,24 +638,12 @@ void phase2_update_func(prover *p, int id, int total_uv, int current_bit, prime_
 			p -> nadd_mult_sum[i].a.value = (p -> add_mult_sum[g_one].a.value * previous_random.value + p -> add_mult_sum[g_one].b.value - p -> nadd_mult_sum[i].b.value + prime_field::mod) % prime_field::mod;
 		}
 
-		if(i % 8 == 0 || i + 1 == (total_uv >> 1))
-		{
-			p -> rets[id].a.value = (p -> rets[id].a.value + p -> nadd_mult_sum[i].a.value * p -> nV_mult_add[i].a.value) % prime_field::mod;
-			p -> rets[id].b.value = (p -> rets[id].b.value + p -> nadd_mult_sum[i].a.value * p -> nV_mult_add[i].b.value
+		p -> rets[id].a.value = (p -> rets[id].a.value + p -> nadd_mult_sum[i].a.value * p -> nV_mult_add[i].a.value) % prime_field::mod;
+		p -> rets[id].b.value = (p -> rets[id].b.value + p -> nadd_mult_sum[i].a.value * p -> nV_mult_add[i].b.value
 									  +	p -> nadd_mult_sum[i].b.value * p -> nV_mult_add[i].a.value
 									  + p -> naddV_array[i].a.value) % prime_field::mod;
-			p -> rets[id].c.value = (p -> rets[id].c.value + p -> nadd_mult_sum[i].b.value * p -> nV_mult_add[i].b.value
+		p -> rets[id].c.value = (p -> rets[id].c.value + p -> nadd_mult_sum[i].b.value * p -> nV_mult_add[i].b.value
 									  + p -> naddV_array[i].b.value) % prime_field::mod;
-		}
-		else
-		{
-			p -> rets[id].a.value = (p -> rets[id].a.value + p -> nadd_mult_sum[i].a.value * p -> nV_mult_add[i].a.value);
-			p -> rets[id].b.value = (p -> rets[id].b.value + p -> nadd_mult_sum[i].a.value * p -> nV_mult_add[i].b.value
-									  +	p -> nadd_mult_sum[i].b.value * p -> nV_mult_add[i].a.value
-									  + p -> naddV_array[i].a.value);
-			p -> rets[id].c.value = (p -> rets[id].c.value + p -> nadd_mult_sum[i].b.value * p -> nV_mult_add[i].b.value
-									  + p -> naddV_array[i].b.value);
-		}
 	}
 
 
-- 
2.43.0


From 0532373fd3511ba478e7788af99fffd30176948e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 16:35:06 +0000
Subject: [PATCH 08/22] fix: multi-threaded prover aborted on a padded one-gate
 input layer

The reader pads a one-gate layer with a dummy gate, which evaluate()
refused in the input layer.
---
 src/linear_gkr/prover_fast_para_track.cpp   | 2 +-
 src/linear_gkr/verifier_fast_para_track.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/linear_gkr/prover_fast_para_track.cpp b/src/linear_gkr/prover_fast_para_track.cpp
index ed25af3..9462a19 100644
--- a/src/linear_gkr/prover_fast_para_track.cpp
+++ b/src/linear_gkr/prover_fast_para_track.cpp
@@ -70,7 +70,7 @@ prime_field::field_element* prover::evaluate()
 		u = C.circuit[0].gates[g].u;
 		v = C.circuit[0].gates[g].v;
 		ty = C.circuit[0].gates[g].ty;
-		assert(ty == 3);
+		assert(ty == 3 || ty == 2);
 		circuit_value[0][g] = prime_field::field_element(u);
 	}
 	assert(C.total_depth < 1000000);
diff --git a/src/linear_gkr/verifier_fast_para_track.cpp b/src/linear_gkr/verifier_fast_para_track.cpp
index 5b075cb..e14e545 100644
--- a/src/linear_gkr/verifier_fast_para_track.cpp
+++ b/src/linear_gkr/verifier_fast_para_track.cpp
@@ -356,7 +356,7 @@ bool verifier::verify()
 	for(int i = 0; i < (1 << C.circuit[0].bit_length); ++i)
 	{
 		int g = i;
-		if(C.circuit[0].gates[g].ty == 3)
+		if(C.circuit[0].gates[g].ty == 3 || C.circuit[0].gates[g].ty == 2)
 		{
 			input[g] = prime_field::field_element(C.circuit[0].gates[g].u);
 		}
-- 
2.43.0


From bfbc5852c2814f68f02425fb81595d30aca82c38 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 17:18:07 +0000
Subject: [PATCH 09/22] fix: translators fed inputs of other repetitions to a
 repetition

---
 parser_lanczos.cpp |  8 ++++----
 parser_sha.cpp     | 22 +++++++++++-----------
 2 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/parser_lanczos.cpp b/parser_lanczos.cpp
index 6175707..1304bcd 100644
--- a/parser_lanczos.cpp
+++ b/parser_lanczos.cpp
@@ -141,7 +141,7 @@ void read_circuit(ifstream &circuit_in)
             {
                 if(circuit_input[src0])
                 {
-                    int rdl_gate_ptr = rdl_output_pointer[src0 * repeat_num + i];
+                    int rdl_gate_ptr = rdl_output_pointer[i * (rdl_output_cnt / repeat_num) + src0];
                     u = gates[rdl_gate_ptr].id;
                 }
                 else
@@ -150,7 +150,7 @@ void read_circuit(ifstream &circuit_in)
                 }
                 if(circuit_input[src1])
                 {
-                    int rdl_gate_ptr = rdl_output_pointer[src1 * repeat_num + i];
+                    int rdl_gate_ptr = rdl_output_pointer[i * (rdl_output_cnt / repeat_num) + src1];
                     v = gates[rdl_gate_ptr].id;
                 }
                 else
@@ -181,7 +181,7 @@ void read_circuit(ifstream &circuit_in)
             {
                 if(circuit_input[src0])
                 {
-                    int rdl_gate_ptr = rdl_output_pointer[src0 * repeat_num + i];
+                    int rdl_gate_ptr = rdl_output_pointer[i * (rdl_output_cnt / repeat_num) + src0];
                     u = gates[rdl_gate_ptr].id;
                 }
                 else
@@ -190,7 +190,7 @@ void read_circuit(ifstream &circuit_in)
                 }
                 if(circuit_input[src1])
                 {
-                    int rdl_gate_ptr = rdl_output_pointer[src1 * repeat_num + i];
+                    int rdl_gate_ptr = rdl_output_pointer[i * (rdl_output_cnt / repeat_num) + src1];
                     v = gates[rdl_gate_ptr].id;
                 }
                 else
diff --git a/parser_sha.cpp b/parser_sha.cpp
index 4a3fa1e..8e084cf 100644
--- a/parser_sha.cpp
+++ b/parser_sha.cpp
@@ -149,7 +149,7 @@ void read_circuit(ifstream &circuit_in)
             {
                 if(circuit_input.find(src0) != circuit_input.end())
                 {
-                    int rdl_gate_ptr = rdl_output_pointer[circuit_input[src0] * repeat_num + i];
+                    int rdl_gate_ptr = rdl_output_pointer[i * (rdl_output_cnt / repeat_num) + circuit_input[src0]];
                     u = gates[rdl_gate_ptr].id;
                 }
                 else
@@ -158,7 +158,7 @@ void read_circuit(ifstream &circuit_in)
                 }
                 if(circuit_input.find(src1) != circuit_input.end())
                 {
-                    int rdl_gate_ptr = rdl_output_pointer[circuit_input[src1] * repeat_num + i];
+                    int rdl_gate_ptr = rdl_output_pointer[i * (rdl_output_cnt / repeat_num) + circuit_input[src1]];
                     v = gates[rdl_gate_ptr].id;
                 }
                 else
@@ -189,7 +189,7 @@ void read_circuit(ifstream &circuit_in)
             {
                 if(circuit_input.find(src0) != circuit_input.end())
                 {
-                    int rdl_gate_ptr = rdl_output_pointer[circuit_input[src0] * repeat_num + i];
+                    int rdl_gate_ptr = rdl_output_pointer[i * (rdl_output_cnt / repeat_num) + circuit_input[src0]];
                     u = gates[rdl_gate_ptr].id;
                 }
                 else
@@ -198,7 +198,7 @@ void read_circuit(ifstream &circuit_in)
                 }
                 if(circuit_input.find(src1) != circuit_input.end())
                 {
-                    int rdl_gate_ptr = rdl_output_pointer[circuit_input[src1] * repeat_num + i];
+                    int rdl_gate_ptr = rdl_output_pointer[i * (rdl_output_cnt / repeat_num) + circuit_input[src1]];
                     v = gates[rdl_gate_ptr].id;
                 }
                 else
@@ -243,7 +243,7 @@ void read_circuit(ifstream &circuit_in)
             {
                 if(circuit_input.find(src0) != circuit_input.end())
                 {
-                    int rdl_gate_ptr = rdl_output_pointer[circuit_input[src0] * repeat_num + i];
+                    int rdl_gate_ptr = rdl_output_pointer[i * (rdl_output_cnt / repeat_num) + circuit_input[src0]];
                     u = gates[rdl_gate_ptr].id;
                 }
                 else
@@ -252,7 +252,7 @@ void read_circuit(ifstream &circuit_in)
                 }
                 if(circuit_input.find(src1) != circuit_input.end())
                 {
-                    int rdl_gate_ptr = rdl_output_pointer[circuit_input[src1] * repeat_num + i];
+                    int rdl_gate_ptr = rdl_output_pointer[i * (rdl_output_cnt / repeat_num) + circuit_input[src1]];
                     v = gates[rdl_gate_ptr].id;
                 }
                 else
@@ -281,7 +281,7 @@ void read_circuit(ifstream &circuit_in)
             {
                 if(circuit_input.find(src0) != circuit_input.end())
                 {
-                    int rdl_gate_ptr = rdl_output_pointer[circuit_input[src0] * repeat_num + i];
+                    int rdl_gate_ptr = rdl_output_pointer[i * (rdl_output_cnt / repeat_num) + circuit_input[src0]];
                     u = gates[rdl_gate_ptr].id;
                 }
                 else
@@ -290,7 +290,7 @@ void read_circuit(ifstream &circuit_in)
                 }
                 if(circuit_input.find(src1) != circuit_input.end())
                 {
-                    int rdl_gate_ptr = rdl_output_pointer[circuit_input[src1] * repeat_num + i];
+                    int rdl_gate_ptr = rdl_output_pointer[i * (rdl_output_cnt / repeat_num) + circuit_input[src1]];
                     v = gates[rdl_gate_ptr].id;
                 }
                 else
@@ -319,7 +319,7 @@ void read_circuit(ifstream &circuit_in)
             {
                 if(circuit_input.find(src0) != circuit_input.end())
                 {
-                    int rdl_gate_ptr = rdl_output_pointer[circuit_input[src0] * repeat_num + i];
+                    int rdl_gate_ptr = rdl_output_pointer[i * (rdl_output_cnt / repeat_num) + circuit_input[src0]];
                     u = gates[rdl_gate_ptr].id;
                 }
                 else
@@ -328,7 +328,7 @@ void read_circuit(ifstream &circuit_in)
                 }
                 if(circuit_input.find(src1) != circuit_input.end())
                 {
-                    int rdl_gate_ptr = rdl_output_pointer[circuit_input[src1] * repeat_num + i];
+                    int rdl_gate_ptr = rdl_output_pointer[i * (rdl_output_cnt / repeat_num) + circuit_input[src1]];
                     v = gates[rdl_gate_ptr].id;
                 }
                 else
@@ -357,7 +357,7 @@ void read_circuit(ifstream &circuit_in)
             {
                 if(circuit_input.find(src0) != circuit_input.end())
                 {
-                    int rdl_gate_ptr = rdl_output_pointer[circuit_input[src0] * repeat_num + i];
+                    int rdl_gate_ptr = rdl_output_pointer[i * (rdl_output_cnt / repeat_num) + circuit_input[src0]];
                     u = gates[rdl_gate_ptr].id;
                 }
                 else
-- 
2.43.0


From 53388938a6dadffa27c66132b979c8397b40cfe9 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 17:18:07 +0000
Subject: [PATCH 10/22] fix: data-parallel translator queued gates before their
 operands

---
 parser_sha_data_parallel.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser_sha_data_parallel.cpp b/parser_sha_data_parallel.cpp
index c7b2bc2..ab1a0a6 100644
--- a/parser_sha_data_parallel.cpp
+++ b/parser_sha_data_parallel.cpp
@@ -155,9 +155,9 @@ void DAG_to_layered()
 		if(in_deg[id] == 0)
 		{
 			assert((x -> second).ty == input);
+			(x -> second).layered_lvl = 0;
+			q.push(id);
 		}
-		(x -> second).layered_lvl = 0;
-		q.push(id);
 	}
 	int max_lvl = -1;
 	while(!q.empty())
-- 
2.43.0


From dd9273493329224fc52b5c4f0ea0607b631e99ff Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 17:18:07 +0000
Subject: [PATCH 11/22] fix: data-parallel translator dropped the last term of
 every sum

---
 parser_sha_data_parallel.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser_sha_data_parallel.cpp b/parser_sha_data_parallel.cpp
index ab1a0a6..d243e99 100644
--- a/parser_sha_data_parallel.cpp
+++ b/parser_sha_data_parallel.cpp
@@ -667,11 +667,13 @@ void merge_and_output()
 				}
 				else
 				{
+					long long v = sha256.layers[i].gates[j].v + r * prev_block_size;
 					if(sha256.layers[i].gates[j].ty == sum_gate)
 					{
+						v++; //a summation gate adds u to v - 1
 						printf("%lld %lld\n", sha256.layers[i].gates[j].u, sha256.layers[i].gates[j].v + 1);
 					}
-					fprintf(sha256_circuit_file, "%d %d %015lld %lld ", sha256.layers[i].gates[j].ty, sha256.layers[i].gates[j].g + r * block_size, sha256.layers[i].gates[j].u + r * prev_block_size, sha256.layers[i].gates[j].v + r * prev_block_size);
+					fprintf(sha256_circuit_file, "%d %d %015lld %lld ", sha256.layers[i].gates[j].ty, sha256.layers[i].gates[j].g + r * block_size, sha256.layers[i].gates[j].u + r * prev_block_size, v);
 				}
 			}
 		}
-- 
2.43.0


From ac477a5ce0983b362ef04939232cf92b5701a17f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 17:51:56 +0000
Subject: [PATCH 12/22] fix: zero-knowledge verifier believed the prover's
 output evaluation

---
 src/linear_gkr/zk_verifier.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/linear_gkr/zk_verifier.cpp b/src/linear_gkr/zk_verifier.cpp
index af21648..e578586 100644
--- a/src/linear_gkr/zk_verifier.cpp
+++ b/src/linear_gkr/zk_verifier.cpp
@@ -889,6 +889,11 @@ bool zk_verifier::verify(const char* output_path)
 
 	std::chrono::duration<double> ts = std::chrono::duration_cast<std::chrono::duration<double>>(t_b - t_a);
 	std::cerr << "	Time: " << ts.count() << std::endl;
+	if(a_0 != V_in(r_0, one_minus_r_0, result, C.circuit[C.total_depth - 1].bit_length, (1 << (C.circuit[C.total_depth - 1].bit_length))))
+	{
+		fprintf(stderr, "Verification fail, output evaluation\n");
+		return false;
+	}
 	a_0 = alpha * a_0;
 
 	prime_field::field_element alpha_beta_sum = a_0; //+ a_1
-- 
2.43.0


From cabae931f2049bf4510df7c1ee00700ab6b72439 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 17:51:57 +0000
Subject: [PATCH 13/22] fix: zero-knowledge mask sum was chosen after the
 challenge rho

---
 src/linear_gkr/zk_prover.cpp   | 19 +++++++++++--------
 src/linear_gkr/zk_verifier.cpp |  8 ++++++--
 2 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/linear_gkr/zk_prover.cpp b/src/linear_gkr/zk_prover.cpp
index 02ab256..0bd2770 100644
--- a/src/linear_gkr/zk_prover.cpp
+++ b/src/linear_gkr/zk_prover.cpp
@@ -162,6 +162,16 @@ vector<bn::Ec1> zk_prover::generate_maskpoly_pre_rho(int length, int degree)
 	for(int i = 0; i < length * degree + 1 + 6; i++){
 		maskpoly[i] = prime_field::random();
 	}
+
+	//sum over the hypercube, sent with the commitment
+	maskpoly_sumc = maskpoly[length * degree];
+	for(int i = length * degree; i >= 0; i--)
+		maskpoly_sumc = maskpoly_sumc + maskpoly[i];
+	for(int i = 1; i <= 6; i++)
+		maskpoly_sumc = maskpoly_sumc + maskpoly[length * degree + i];
+
+	for(int i = 1; i < length; i++)
+		maskpoly_sumc = maskpoly_sumc + maskpoly_sumc;
 	
 	vpd_test::environment_init();
 	vpd_test::KeyGen(length);
@@ -236,14 +246,7 @@ void zk_prover::generate_maskpoly_after_rho(int length, int degree)
 	for(int i = 0; i < length * degree + 1 + 6; i++){
 		maskpoly[i] = maskpoly[i] * rho;
 	}
-	maskpoly_sumc = maskpoly[length * degree];
-	for(int i = length * degree; i >= 0; i--)
-		maskpoly_sumc = maskpoly_sumc + maskpoly[i];
-	for(int i = 1; i <= 6; i++)
-		maskpoly_sumc = maskpoly_sumc + maskpoly[length * degree + i];
-
-	for(int i = 1; i < length; i++)
-		maskpoly_sumc = maskpoly_sumc + maskpoly_sumc;
+	maskpoly_sumc = maskpoly_sumc * rho;
 	maskpoly_sumr = prime_field::field_element(0);
 }
 
diff --git a/src/linear_gkr/zk_verifier.cpp b/src/linear_gkr/zk_verifier.cpp
index e578586..c5322dc 100644
--- a/src/linear_gkr/zk_verifier.cpp
+++ b/src/linear_gkr/zk_verifier.cpp
@@ -903,7 +903,6 @@ bool zk_verifier::verify(const char* output_path)
 	{
 		std::chrono::high_resolution_clock::time_point t0 = std::chrono::high_resolution_clock::now();
 	//	std::cerr << "Bound u start" << std::endl;
-		auto rho = trans.random();
 		std::vector<bn::Ec1> digest_mask;
 
 		auto digest_maskR = p -> sumcheck_init(i, C.circuit[i].bit_length, C.circuit[i - 1].bit_length, C.circuit[i - 1].bit_length, alpha, beta, r_0, r_1, one_minus_r_0, one_minus_r_1);
@@ -914,6 +913,11 @@ bool zk_verifier::verify(const char* output_path)
 			trans.msg.push_back(digest_mask[j]);
 		for(int j = 0; j < digest_maskR.size(); ++j)
 			trans.msg.push_back(digest_maskR[j]);
+		//rho is drawn only after the mask polynomial and its sum are fixed
+		auto maskpoly_sum = p -> maskpoly_sumc;
+		proof_size += sizeof(prime_field::field_element) / 2;
+		trans.msg.push_back(container(maskpoly_sum, container::fld_ele_indicator));
+		auto rho = trans.random();
 		p -> rho = rho;
 		p -> generate_maskpoly_after_rho(C.circuit[i - 1].bit_length * 2 + 1, 2);
 		bool r_verify_cc = vpdR::check_commit(digest_maskR[0], digest_maskR[1]);
@@ -921,7 +925,7 @@ bool zk_verifier::verify(const char* output_path)
 		
 		//add maskpoly
 
-		alpha_beta_sum.value = (alpha_beta_sum.value + p->maskpoly_sumc.value) % prime_field::mod;
+		alpha_beta_sum = alpha_beta_sum + rho * maskpoly_sum;
 
 		p -> sumcheck_phase1_init();
 		prime_field::field_element previous_random = prime_field::field_element(0);
-- 
2.43.0


From 11e78f1104a0d5d66be5ae71e2f69ab43b610bff Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 17:51:57 +0000
Subject: [PATCH 14/22] fix: zero-knowledge verifier took weights and points
 from the prover

---
 src/linear_gkr/zk_verifier.cpp | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/linear_gkr/zk_verifier.cpp b/src/linear_gkr/zk_verifier.cpp
index c5322dc..faf0c74 100644
--- a/src/linear_gkr/zk_verifier.cpp
+++ b/src/linear_gkr/zk_verifier.cpp
@@ -899,6 +899,10 @@ bool zk_verifier::verify(const char* output_path)
 	prime_field::field_element alpha_beta_sum = a_0; //+ a_1
 
 	prime_field::field_element direct_relay_value;
+	//weights and points of the masks of the layer being reduced, determined by the challenges alone;
+	//the output layer is not masked
+	prime_field::field_element preZu = prime_field::field_element(0), preZv = prime_field::field_element(0);
+	prime_field::field_element preu1 = prime_field::field_element(0), prev1 = prime_field::field_element(0);
 	for(int i = C.total_depth - 1; i >= 1; --i)
 	{
 		std::chrono::high_resolution_clock::time_point t0 = std::chrono::high_resolution_clock::now();
@@ -1060,6 +1064,9 @@ bool zk_verifier::verify(const char* output_path)
 		auto v_v = final_claims.second;
 
 		std::chrono::high_resolution_clock::time_point predicates_calc_t0 = std::chrono::high_resolution_clock::now();
+		prime_field::field_element Iuv = prime_field::field_element(1);
+		for(int j = 0; j < C.circuit[i - 1].bit_length; ++j)
+			Iuv = Iuv * one_minus_r_u[j] * one_minus_r_v[j];
 		beta_init(i, alpha, beta, r_0, r_1, r_u, r_v, one_minus_r_0, one_minus_r_1, one_minus_r_u, one_minus_r_v);
 		auto predicates_value = predicates(i, r_0, r_1, r_u, r_v, alpha, beta);
 		std::chrono::high_resolution_clock::time_point predicates_calc_t1 = std::chrono::high_resolution_clock::now();
@@ -1094,7 +1101,7 @@ bool zk_verifier::verify(const char* output_path)
 		mpz_class maskRg1_value_mpz, maskRg2_value_mpz;
 		std::vector<mpz_class> r;
 		r.resize(2);
-		r[0] = p -> prepreu1.to_gmp_class(), r[1] = r_c[0].to_gmp_class();
+		r[0] = preu1.to_gmp_class(), r[1] = r_c[0].to_gmp_class();
 		auto witnesses = p -> prove_R(r, maskRg1_value_mpz);
 		prime_field::field_element tmp_rg1;
 		proof_size += sizeof(bn::Ec1) / bilinear_pairing_factor * (witnesses.first.size() + witnesses.second.size());
@@ -1109,7 +1116,7 @@ bool zk_verifier::verify(const char* output_path)
 		std::chrono::duration<double> vpdr_verify_0_span = std::chrono::duration_cast<std::chrono::duration<double>>(vpdr_verify_0_1 - vpdr_verify_0_0);
 		verification_time += vpdr_verify_0_span.count();
 
-		r[0] = p -> preprev1.to_gmp_class();
+		r[0] = prev1.to_gmp_class();
 		witnesses = p -> prove_R(r, maskRg2_value_mpz);
 		proof_size += sizeof(bn::Ec1) / bilinear_pairing_factor * (witnesses.first.size() + witnesses.second.size());
 		for(int i = 0; i < witnesses.first.size(); ++i)
@@ -1170,7 +1177,7 @@ bool zk_verifier::verify(const char* output_path)
 		maskpoly_value.value = prime_field::u512b(maskpoly_value_mpz.get_str().c_str(), maskpoly_value_mpz.get_str().length(), 10);
 		maskRg1_value.value = prime_field::u512b(maskRg1_value_mpz.get_str().c_str(), maskRg1_value_mpz.get_str().length(), 10);
 		maskRg2_value.value = prime_field::u512b(maskRg2_value_mpz.get_str().c_str(), maskRg2_value_mpz.get_str().length(), 10);
-		if(alpha_beta_sum != r_c[0] * (add_value * (v_u + v_v) + mult_value * v_u * v_v + not_value * (prime_field::field_element(1) - v_u) + minus_value * (v_u - v_v) + xor_value * (v_u + v_v - prime_field::field_element(2) * v_u * v_v) + naab_value * (v_v - v_u * v_v) + sum_value * v_u + relay_value * v_u + exp_sum_value * v_u + bit_test_value * (prime_field::field_element(1) - v_v) * v_u) + alpha * p -> Iuv * p ->preZu * maskRg1_value + beta * p -> Iuv * p -> preZv * maskRg2_value + rho * maskpoly_value + direct_relay_value * v_u)
+		if(alpha_beta_sum != r_c[0] * (add_value * (v_u + v_v) + mult_value * v_u * v_v + not_value * (prime_field::field_element(1) - v_u) + minus_value * (v_u - v_v) + xor_value * (v_u + v_v - prime_field::field_element(2) * v_u * v_v) + naab_value * (v_v - v_u * v_v) + sum_value * v_u + relay_value * v_u + exp_sum_value * v_u + bit_test_value * (prime_field::field_element(1) - v_v) * v_u) + alpha * Iuv * preZu * maskRg1_value + beta * Iuv * preZv * maskRg2_value + rho * maskpoly_value + direct_relay_value * v_u)
 		{
 			fprintf(stderr, "Verification fail, semi final, circuit level %d\n", i);
 			return false;
@@ -1187,6 +1194,14 @@ bool zk_verifier::verify(const char* output_path)
 			alpha_beta_sum = alpha * v_u + beta * v_v;
 		else
 			alpha_beta_sum = v_u;
+		preZu = preZv = prime_field::field_element(1);
+		for(int j = 0; j < C.circuit[i - 1].bit_length; ++j)
+		{
+			preZu = preZu * r_u[j] * one_minus_r_u[j];
+			preZv = preZv * r_v[j] * one_minus_r_v[j];
+		}
+		preu1 = r_u[C.circuit[i - 1].bit_length - 1];
+		prev1 = r_v[C.circuit[i - 1].bit_length - 1];
 		delete[] r_0;
 		delete[] r_1;
 		delete[] one_minus_r_0;
@@ -1211,7 +1226,7 @@ bool zk_verifier::verify(const char* output_path)
 	auto poly_commit_prove_time_t0 = std::chrono::high_resolution_clock::now();
 
 	input_0_mpz = 0, input_1_mpz = 0;
-	auto witnesses_0 = p -> prove_input(r_0_mpz, input_0_mpz, p -> Zu.to_gmp_class());
+	auto witnesses_0 = p -> prove_input(r_0_mpz, input_0_mpz, preZu.to_gmp_class());
 	proof_size += sizeof(bn::Ec1) / bilinear_pairing_factor * (witnesses_0.first.size() + witnesses_0.second.size());
 	for(int i = 0; i < witnesses_0.first.size(); ++i)
 		trans.msg.push_back(container(witnesses_0.first[i]));
@@ -1220,7 +1235,7 @@ bool zk_verifier::verify(const char* output_path)
 	
 
 	std::chrono::high_resolution_clock::time_point vpd_input_0 = std::chrono::high_resolution_clock::now();
-	bool input_0_verify = input_vpd::verify(r_0_mpz, digest_input.first[0], digest_input.second[0], p -> Zu.to_gmp_class(), input_0_mpz, witnesses_0.first, witnesses_0.second);
+	bool input_0_verify = input_vpd::verify(r_0_mpz, digest_input.first[0], digest_input.second[0], preZu.to_gmp_class(), input_0_mpz, witnesses_0.first, witnesses_0.second);
 	std::chrono::high_resolution_clock::time_point vpd_input_1 = std::chrono::high_resolution_clock::now();
 	std::chrono::duration<double> vpd_input_span = std::chrono::duration_cast<std::chrono::duration<double>>(vpd_input_1 - vpd_input_0);
 	verification_time += vpd_input_span.count();
@@ -1232,8 +1247,6 @@ bool zk_verifier::verify(const char* output_path)
 		return false;
 	}
 
-	input_0 = input_0 + p->Zu * p->sumRc.eval(p->preu1);
-	
 	auto is0 = input_0_mpz.get_str();
 	input_0.value = prime_field::u512b(is0.c_str(), is0.length(), 10);
 	
-- 
2.43.0


From ce49a12d2df58e97c911318349b136b1994c7933 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 17:51:57 +0000
Subject: [PATCH 15/22] fix: zero-knowledge prover could change its claim
 during phase 2

---
 src/linear_gkr/zk_verifier.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/linear_gkr/zk_verifier.cpp b/src/linear_gkr/zk_verifier.cpp
index faf0c74..57a17cf 100644
--- a/src/linear_gkr/zk_verifier.cpp
+++ b/src/linear_gkr/zk_verifier.cpp
@@ -1003,6 +1003,8 @@ bool zk_verifier::verify(const char* output_path)
 	//	std::cerr << "Bound v start" << std::endl;
 		t0 = std::chrono::high_resolution_clock::now();
 		p -> sumcheck_phase2_init(previous_random, r_u, one_minus_r_u);
+		//claimed once, before the second phase
+		auto v_u = p -> v_u;
 		previous_random = prime_field::field_element(0);
 		for(int j = 0; j < C.circuit[i - 1].bit_length; ++j)
 		{
@@ -1019,7 +1021,7 @@ bool zk_verifier::verify(const char* output_path)
 				trans.msg.push_back(container(poly.f, container::fld_ele_indicator));
 				poly.f = poly.f;
 				previous_random = r_v[j];
-				if(poly.eval(0) + poly.eval(1) + direct_relay_value * p -> v_u != alpha_beta_sum)
+				if(poly.eval(0) + poly.eval(1) + direct_relay_value * v_u != alpha_beta_sum)
 				{
 					fprintf(stderr, "Verification fail, phase2, circuit level %d, current bit %d\n", i, j);
 					return false;
@@ -1028,7 +1030,7 @@ bool zk_verifier::verify(const char* output_path)
 				{
 					
 				}
-				alpha_beta_sum = poly.eval(r_v[j]) + direct_relay_value * p -> v_u;
+				alpha_beta_sum = poly.eval(r_v[j]) + direct_relay_value * v_u;
 			}
 			else
 			{
@@ -1040,7 +1042,7 @@ bool zk_verifier::verify(const char* output_path)
 				poly.c = poly.c;
 			
 				previous_random = r_v[j];
-				if(poly.eval(0) + poly.eval(1) + direct_relay_value * p -> v_u != alpha_beta_sum)
+				if(poly.eval(0) + poly.eval(1) + direct_relay_value * v_u != alpha_beta_sum)
 				{
 					fprintf(stderr, "Verification fail, phase2, circuit level %d, current bit %d\n", i, j);
 					return false;
@@ -1049,7 +1051,7 @@ bool zk_verifier::verify(const char* output_path)
 				{
 					
 				}
-				alpha_beta_sum = poly.eval(r_v[j]) + direct_relay_value * p -> v_u;
+				alpha_beta_sum = poly.eval(r_v[j]) + direct_relay_value * v_u;
 			}
 		}
 
@@ -1060,7 +1062,11 @@ bool zk_verifier::verify(const char* output_path)
 		auto final_claims = p -> sumcheck_finalize(previous_random);
 		
 
-		auto v_u = final_claims.first;
+		if(final_claims.first != v_u)
+		{
+			fprintf(stderr, "Verification fail, inconsistent claim, circuit level %d\n", i);
+			return false;
+		}
 		auto v_v = final_claims.second;
 
 		std::chrono::high_resolution_clock::time_point predicates_calc_t0 = std::chrono::high_resolution_clock::now();
@@ -1095,7 +1101,7 @@ bool zk_verifier::verify(const char* output_path)
 		}
 		if(i == 1)
 			r_c[0] = prime_field::field_element(0);
-		alpha_beta_sum = poly.eval(r_c[0]) + direct_relay_value * p -> v_u;
+		alpha_beta_sum = poly.eval(r_c[0]) + direct_relay_value * v_u;
 
 		auto poly_commit_prove_time_t0 = std::chrono::high_resolution_clock::now();
 		mpz_class maskRg1_value_mpz, maskRg2_value_mpz;
-- 
2.43.0


From e8f3bcb6f967f817ed536487d6d4b46c96ba5f25 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 17:51:57 +0000
Subject: [PATCH 16/22] fix: zero-knowledge phase 2 of the copy layer was
 checked at zero challenges

---
 src/linear_gkr/zk_verifier.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/linear_gkr/zk_verifier.cpp b/src/linear_gkr/zk_verifier.cpp
index 57a17cf..382ca60 100644
--- a/src/linear_gkr/zk_verifier.cpp
+++ b/src/linear_gkr/zk_verifier.cpp
@@ -1008,8 +1008,6 @@ bool zk_verifier::verify(const char* output_path)
 		previous_random = prime_field::field_element(0);
 		for(int j = 0; j < C.circuit[i - 1].bit_length; ++j)
 		{
-			if(i == 1)
-				r_v[j] = prime_field::field_element(0);
 			if(j == C.circuit[i - 1].bit_length - 1){
 				quintuple_poly poly = p -> sumcheck_phase2_updatelastbit(previous_random, j);
 				proof_size += sizeof(quintuple_poly) / 2;
@@ -1099,8 +1097,6 @@ bool zk_verifier::verify(const char* output_path)
 			fprintf(stderr, "Verification fail, phase2, lastbit for c\n");
 			return false;
 		}
-		if(i == 1)
-			r_c[0] = prime_field::field_element(0);
 		alpha_beta_sum = poly.eval(r_c[0]) + direct_relay_value * v_u;
 
 		auto poly_commit_prove_time_t0 = std::chrono::high_resolution_clock::now();
-- 
2.43.0


From a7f061359a6fa664e1494a504ed9264413b1475f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 17:51:57 +0000
Subject: [PATCH 17/22] fix: zero-knowledge commitment checks skipped the last
 witness and the input

---
 include/VPD/input_vpd.h        | 1 +
 src/VPD/inputvpd.cpp           | 2 +-
 src/VPD/vpdR.cpp               | 2 +-
 src/linear_gkr/zk_verifier.cpp | 3 ++-
 4 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/VPD/input_vpd.h b/include/VPD/input_vpd.h
index 947dbbf..eba629a 100644
--- a/include/VPD/input_vpd.h
+++ b/include/VPD/input_vpd.h
@@ -26,6 +26,7 @@ namespace input_vpd
     void pre_input(std::vector<mpz_class>& input);
     void prove(vector<mpz_class> r, mpz_class& ans, vector<mpz_class>& input, vector<mpz_class> &input2, vector<Ec1>& witness, vector<Ec1>& witnessa, mpz_class r_f, mpz_class r_f2, mpz_class Z);
     void environment_init();
+    bool check_commit(Ec1 digest, Ec1 digesta, Ec1 digest2, Ec1 digest2a);
     bool verify(vector<mpz_class> r, Ec1 digest, Ec1 digest2, mpz_class Z, mpz_class& ans, vector<Ec1>& witness, vector<Ec1>& witnessa);
 }
 
diff --git a/src/VPD/inputvpd.cpp b/src/VPD/inputvpd.cpp
index 46d976e..af3095b 100644
--- a/src/VPD/inputvpd.cpp
+++ b/src/VPD/inputvpd.cpp
@@ -383,7 +383,7 @@ bool verify(vector<mpz_class> r, Ec1 digest, Ec1 digest2, mpz_class Z, mpz_class
 	
 	bool flag = 1;
 	
-	for(int i = 0; i < r.size(); i++){
+	for(int i = 0; i < r.size() + 1; i++){
 		opt_atePairing(ea1, g2, witnessa[i]);
 		opt_atePairing(ea2, g2a, witness[i]);
 		if(ea1 != ea2){
diff --git a/src/VPD/vpdR.cpp b/src/VPD/vpdR.cpp
index cd85b81..076adb3 100644
--- a/src/VPD/vpdR.cpp
+++ b/src/VPD/vpdR.cpp
@@ -183,7 +183,7 @@ bool verify(vector<mpz_class> r, Ec1 digest, mpz_class ans, vector<Ec1>& witness
 	
 	bool flag = 1;
 	
-	for(int i = 0; i < r.size(); i++){
+	for(int i = 0; i < r.size() + 1; i++){
 		opt_atePairing(ea1, g2, witnessa[i]);
 		opt_atePairing(ea2, g2a, witness[i]);
 		if(ea1 != ea2){
diff --git a/src/linear_gkr/zk_verifier.cpp b/src/linear_gkr/zk_verifier.cpp
index 382ca60..32ddef7 100644
--- a/src/linear_gkr/zk_verifier.cpp
+++ b/src/linear_gkr/zk_verifier.cpp
@@ -1237,7 +1237,8 @@ bool zk_verifier::verify(const char* output_path)
 	
 
 	std::chrono::high_resolution_clock::time_point vpd_input_0 = std::chrono::high_resolution_clock::now();
-	bool input_0_verify = input_vpd::verify(r_0_mpz, digest_input.first[0], digest_input.second[0], preZu.to_gmp_class(), input_0_mpz, witnesses_0.first, witnesses_0.second);
+	bool input_0_verify = input_vpd::check_commit(digest_input.first[0], digest_input.first[1], digest_input.second[0], digest_input.second[1]);
+	input_0_verify &= input_vpd::verify(r_0_mpz, digest_input.first[0], digest_input.second[0], preZu.to_gmp_class(), input_0_mpz, witnesses_0.first, witnesses_0.second);
 	std::chrono::high_resolution_clock::time_point vpd_input_1 = std::chrono::high_resolution_clock::now();
 	std::chrono::duration<double> vpd_input_span = std::chrono::duration_cast<std::chrono::duration<double>>(vpd_input_1 - vpd_input_0);
 	verification_time += vpd_input_span.count();
-- 
2.43.0


From dcbe72d01f2ce756cd32c9b834e93c4f86eec188 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 17:51:57 +0000
Subject: [PATCH 18/22] fix: zero-knowledge small mask was committed after the
 claims it masks

---
 include/linear_gkr/zk_prover.h |  2 +-
 src/linear_gkr/zk_prover.cpp   | 17 +++++----
 src/linear_gkr/zk_verifier.cpp | 63 +++++++++++++++++++---------------
 3 files changed, 46 insertions(+), 36 deletions(-)

diff --git a/include/linear_gkr/zk_prover.h b/include/linear_gkr/zk_prover.h
index 3c5b663..83a384c 100644
--- a/include/linear_gkr/zk_prover.h
+++ b/include/linear_gkr/zk_prover.h
@@ -80,7 +80,7 @@ public:
 	prime_field::field_element queryRg2(prime_field::field_element);
 
 	prime_field::field_element maskR[6], preR[6];
-	mpz_class r_f_R, r_f_mask_poly, r_f_input, r_f_input2;
+	mpz_class r_f_R, r_f_preR, r_f_mask_poly, r_f_input, r_f_input2;
 	prime_field::field_element maskR_sumcu, maskR_sumcv, preZu, preZv, Zu, Zv, preu1, prev1, Iuv, prepreu1, preprev1;
 	quadratic_poly Rg1, Rg2, sumRc;
 	std::vector<bn::Ec1> generate_maskR(int);
diff --git a/src/linear_gkr/zk_prover.cpp b/src/linear_gkr/zk_prover.cpp
index 0bd2770..931905d 100644
--- a/src/linear_gkr/zk_prover.cpp
+++ b/src/linear_gkr/zk_prover.cpp
@@ -252,17 +252,15 @@ void zk_prover::generate_maskpoly_after_rho(int length, int degree)
 
 //new zk function
 //a0 + a1g1 + a2g1^2 + a3c + a4c^2 + a5g1c + a6g1^2c + a7g1c^2 + a8g1^2c^2;
+//commits to the mask of layer_id - 1, which is opened when that layer is reduced
 std::vector<bn::Ec1> zk_prover::generate_maskR(int layer_id){
-	vpdR::KeyGen(2);
+	if(layer_id == C.total_depth - 1)
+		vpdR::KeyGen(2);
 	std::vector<bn::Ec1> ret;
-	ret.resize(2);
 
-	std::vector<mpz_class> maskR_gmp;
-	for(int i = 0; i < 6; ++i)
-		maskR_gmp.push_back(maskR[i].to_gmp_class());
 	prepreu1 = preu1;
 	preprev1 = prev1;
-	r_f_R = vpdR::commit(ret[0], ret[1], maskR_gmp);
+	r_f_preR = r_f_R;
 
 	for(int i = 0; i < 6; i++)
 		preR[i] = maskR[i];
@@ -292,6 +290,11 @@ std::vector<bn::Ec1> zk_prover::generate_maskR(int layer_id){
 		sumRc.a = maskR[2] + maskR[2];
 		sumRc.b = maskR[1] + maskR[1] + maskR[5];
 		sumRc.c = maskR[0] + maskR[0] + maskR[3] + maskR[4];
+		std::vector<mpz_class> maskR_gmp;
+		for(int i = 0; i < 6; ++i)
+			maskR_gmp.push_back(maskR[i].to_gmp_class());
+		ret.resize(2);
+		r_f_R = vpdR::commit(ret[0], ret[1], maskR_gmp);
 	} 
 	if(layer_id == 1){
 		//a + bx;
@@ -311,7 +314,7 @@ std::pair<std::vector<bn::Ec1>, std::vector<bn::Ec1> > zk_prover::prove_R(std::v
 	std::vector<mpz_class> input;
 	for(int i = 0; i < 6; ++i)
 		input.push_back(preR[i].to_gmp_class());
-	vpdR::prove(R, ans, input, witness, witnessa, r_f_R);
+	vpdR::prove(R, ans, input, witness, witnessa, r_f_preR);
 	std::chrono::high_resolution_clock::time_point t1 = std::chrono::high_resolution_clock::now();
 
 	std::chrono::duration<double> time_span = std::chrono::duration_cast<std::chrono::duration<double>>(t1 - t0);
diff --git a/src/linear_gkr/zk_verifier.cpp b/src/linear_gkr/zk_verifier.cpp
index 32ddef7..94387fd 100644
--- a/src/linear_gkr/zk_verifier.cpp
+++ b/src/linear_gkr/zk_verifier.cpp
@@ -903,6 +903,8 @@ bool zk_verifier::verify(const char* output_path)
 	//the output layer is not masked
 	prime_field::field_element preZu = prime_field::field_element(0), preZv = prime_field::field_element(0);
 	prime_field::field_element preu1 = prime_field::field_element(0), prev1 = prime_field::field_element(0);
+	//commitment to the mask of the layer being reduced, sent one layer before its claims
+	std::vector<bn::Ec1> digest_preR;
 	for(int i = C.total_depth - 1; i >= 1; --i)
 	{
 		std::chrono::high_resolution_clock::time_point t0 = std::chrono::high_resolution_clock::now();
@@ -924,7 +926,7 @@ bool zk_verifier::verify(const char* output_path)
 		auto rho = trans.random();
 		p -> rho = rho;
 		p -> generate_maskpoly_after_rho(C.circuit[i - 1].bit_length * 2 + 1, 2);
-		bool r_verify_cc = vpdR::check_commit(digest_maskR[0], digest_maskR[1]);
+		bool r_verify_cc = i == 1 || vpdR::check_commit(digest_maskR[0], digest_maskR[1]);
 		bool msk_poly_cc = vpd_test::check_commit(digest_mask[0], digest_mask[1]);
 		
 		//add maskpoly
@@ -1103,36 +1105,40 @@ bool zk_verifier::verify(const char* output_path)
 		mpz_class maskRg1_value_mpz, maskRg2_value_mpz;
 		std::vector<mpz_class> r;
 		r.resize(2);
-		r[0] = preu1.to_gmp_class(), r[1] = r_c[0].to_gmp_class();
-		auto witnesses = p -> prove_R(r, maskRg1_value_mpz);
-		prime_field::field_element tmp_rg1;
-		proof_size += sizeof(bn::Ec1) / bilinear_pairing_factor * (witnesses.first.size() + witnesses.second.size());
-		for(int i = 0; i < witnesses.first.size(); ++i)
-			trans.msg.push_back(container(witnesses.first[i]));
-		for(int i = 0; i < witnesses.second.size(); ++i)
-			trans.msg.push_back(container(witnesses.second[i]));
+		bool r_verify_verify = true;
+		std::pair<std::vector<bn::Ec1>, std::vector<bn::Ec1> > witnesses;
+		if(i != C.total_depth - 1)
+		{
+			r[0] = preu1.to_gmp_class(), r[1] = r_c[0].to_gmp_class();
+			witnesses = p -> prove_R(r, maskRg1_value_mpz);
+			proof_size += sizeof(bn::Ec1) / bilinear_pairing_factor * (witnesses.first.size() + witnesses.second.size());
+			for(int i = 0; i < witnesses.first.size(); ++i)
+				trans.msg.push_back(container(witnesses.first[i]));
+			for(int i = 0; i < witnesses.second.size(); ++i)
+				trans.msg.push_back(container(witnesses.second[i]));
 
-		std::chrono::high_resolution_clock::time_point vpdr_verify_0_0 = std::chrono::high_resolution_clock::now();
-		bool r_verify_verify = vpdR::verify(r, digest_maskR[0], maskRg1_value_mpz, witnesses.first, witnesses.second);
-		std::chrono::high_resolution_clock::time_point vpdr_verify_0_1 = std::chrono::high_resolution_clock::now();
-		std::chrono::duration<double> vpdr_verify_0_span = std::chrono::duration_cast<std::chrono::duration<double>>(vpdr_verify_0_1 - vpdr_verify_0_0);
-		verification_time += vpdr_verify_0_span.count();
+			std::chrono::high_resolution_clock::time_point vpdr_verify_0_0 = std::chrono::high_resolution_clock::now();
+			r_verify_verify = vpdR::verify(r, digest_preR[0], maskRg1_value_mpz, witnesses.first, witnesses.second);
+			std::chrono::high_resolution_clock::time_point vpdr_verify_0_1 = std::chrono::high_resolution_clock::now();
+			std::chrono::duration<double> vpdr_verify_0_span = std::chrono::duration_cast<std::chrono::duration<double>>(vpdr_verify_0_1 - vpdr_verify_0_0);
+			verification_time += vpdr_verify_0_span.count();
 
-		r[0] = prev1.to_gmp_class();
-		witnesses = p -> prove_R(r, maskRg2_value_mpz);
-		proof_size += sizeof(bn::Ec1) / bilinear_pairing_factor * (witnesses.first.size() + witnesses.second.size());
-		for(int i = 0; i < witnesses.first.size(); ++i)
-			trans.msg.push_back(container(witnesses.first[i]));
-		for(int i = 0; i < witnesses.second.size(); ++i)
-			trans.msg.push_back(container(witnesses.second[i]));
+			r[0] = prev1.to_gmp_class();
+			witnesses = p -> prove_R(r, maskRg2_value_mpz);
+			proof_size += sizeof(bn::Ec1) / bilinear_pairing_factor * (witnesses.first.size() + witnesses.second.size());
+			for(int i = 0; i < witnesses.first.size(); ++i)
+				trans.msg.push_back(container(witnesses.first[i]));
+			for(int i = 0; i < witnesses.second.size(); ++i)
+				trans.msg.push_back(container(witnesses.second[i]));
 		
-		std::chrono::high_resolution_clock::time_point vpdr_verify_1_0 = std::chrono::high_resolution_clock::now();
-		r_verify_verify &= vpdR::verify(r, digest_maskR[0], maskRg2_value_mpz, witnesses.first, witnesses.second);
-		std::chrono::high_resolution_clock::time_point vpdr_verify_1_1 = std::chrono::high_resolution_clock::now();
-		std::chrono::duration<double> vpdr_verify_1_span = std::chrono::duration_cast<std::chrono::duration<double>>(vpdr_verify_1_1 - vpdr_verify_1_0);
-		verification_time += vpdr_verify_1_span.count();
-		auto poly_commit_prove_time_t1 = std::chrono::high_resolution_clock::now();
-		poly_commit_scheme_time += std::chrono::duration_cast<std::chrono::duration<double>>(poly_commit_prove_time_t1 - poly_commit_prove_time_t0).count();
+			std::chrono::high_resolution_clock::time_point vpdr_verify_1_0 = std::chrono::high_resolution_clock::now();
+			r_verify_verify &= vpdR::verify(r, digest_preR[0], maskRg2_value_mpz, witnesses.first, witnesses.second);
+			std::chrono::high_resolution_clock::time_point vpdr_verify_1_1 = std::chrono::high_resolution_clock::now();
+			std::chrono::duration<double> vpdr_verify_1_span = std::chrono::duration_cast<std::chrono::duration<double>>(vpdr_verify_1_1 - vpdr_verify_1_0);
+			verification_time += vpdr_verify_1_span.count();
+			auto poly_commit_prove_time_t1 = std::chrono::high_resolution_clock::now();
+			poly_commit_scheme_time += std::chrono::duration_cast<std::chrono::duration<double>>(poly_commit_prove_time_t1 - poly_commit_prove_time_t0).count();
+		}
 		if(r_verify_verify & r_verify_cc)
 		{
 		}
@@ -1196,6 +1202,7 @@ bool zk_verifier::verify(const char* output_path)
 			alpha_beta_sum = alpha * v_u + beta * v_v;
 		else
 			alpha_beta_sum = v_u;
+		digest_preR = digest_maskR;
 		preZu = preZv = prime_field::field_element(1);
 		for(int j = 0; j < C.circuit[i - 1].bit_length; ++j)
 		{
-- 
2.43.0


From 6c6b2935e8c30aed2d3ac6c23c375a35e8281d96 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 17:51:57 +0000
Subject: [PATCH 19/22] fix: zero-knowledge challenges did not depend on the
 messages they test

---
 include/linear_gkr/transcript.h | 12 ++++++---
 src/linear_gkr/zk_verifier.cpp  | 46 +++++++++++++++++++++++++--------
 2 files changed, 44 insertions(+), 14 deletions(-)

diff --git a/include/linear_gkr/transcript.h b/include/linear_gkr/transcript.h
index 17bf3b5..ce202b2 100644
--- a/include/linear_gkr/transcript.h
+++ b/include/linear_gkr/transcript.h
@@ -10,6 +10,7 @@ public:
     static const int fld_ele_indicator = 1;
     static const int curve_ele_indicator = 0;
     static const int randomness_indicator = 2;
+    static const int statement_indicator = 3;
     int indicator;
     prime_field::field_element fld_ele;
     bn::Ec1 curve_ele;
@@ -24,11 +25,16 @@ public:
         curve_ele = x;
         indicator = curve_ele_indicator;
     }
+    //challenges and the public statement are hashed but not part of the proof
+    bool is_proof()
+    {
+        return indicator == fld_ele_indicator || indicator == curve_ele_indicator;
+    }
     std::vector<bool> output()
     {
         //compress and output
         std::vector<bool> out;
-        if(indicator == fld_ele_indicator || indicator == randomness_indicator)
+        if(indicator != curve_ele_indicator)
         {
             auto x = fld_ele.bit_stream();
             out.insert(out.end(), x.begin(), x.end());
@@ -55,7 +61,7 @@ public:
         std::vector<bool> output;
         for(auto x : msg)
         {
-            if(x.indicator == x.randomness_indicator && !need_rand)
+            if(!x.is_proof() && !need_rand)
                 continue;
             auto out = x.output();
             output.insert(output.end(), out.begin(), out.end());
@@ -144,7 +150,7 @@ public:
         int ret = 0;
         for(int i = 0; i < msg.size(); ++i)
         {
-            if(msg[i].indicator != container::randomness_indicator)
+            if(msg[i].is_proof())
             {
                 if(msg[i].indicator == container::fld_ele_indicator)
                     ret += sizeof(prime_field::field_element) / 2;
diff --git a/src/linear_gkr/zk_verifier.cpp b/src/linear_gkr/zk_verifier.cpp
index 94387fd..f65a227 100644
--- a/src/linear_gkr/zk_verifier.cpp
+++ b/src/linear_gkr/zk_verifier.cpp
@@ -866,6 +866,9 @@ bool zk_verifier::verify(const char* output_path)
 		trans.msg.push_back(container(digest_input.first[i]));
 	for(int i = 0; i < digest_input.second.size(); ++i)
 		trans.msg.push_back(container(digest_input.second[i]));
+	//the claimed output is part of the statement
+	for(int i = 0; i < (1 << C.circuit[C.total_depth - 1].bit_length); ++i)
+		trans.msg.push_back(container(result[i], container::statement_indicator));
 	prime_field::field_element alpha, beta;
 	alpha.value = 1;
 	beta.value = 0;
@@ -935,20 +938,13 @@ bool zk_verifier::verify(const char* output_path)
 
 		p -> sumcheck_phase1_init();
 		prime_field::field_element previous_random = prime_field::field_element(0);
-		//next level random
-		auto r_u = generate_randomness(C.circuit[i - 1].bit_length);
-		auto r_v = generate_randomness(C.circuit[i - 1].bit_length);
-		direct_relay_value = alpha * direct_relay(i, r_0, r_u) + beta * direct_relay(i, r_1, r_u);
-		auto r_c = generate_randomness(1);
+		//next level random, each drawn after the message it challenges
+		auto r_u = new prime_field::field_element[C.circuit[i - 1].bit_length];
+		auto r_v = new prime_field::field_element[C.circuit[i - 1].bit_length];
+		prime_field::field_element r_c[1];
 		prime_field::field_element *one_minus_r_u, *one_minus_r_v;
 		one_minus_r_u = new prime_field::field_element[C.circuit[i - 1].bit_length];
 		one_minus_r_v = new prime_field::field_element[C.circuit[i - 1].bit_length];
-		
-		for(int j = 0; j < C.circuit[i - 1].bit_length; ++j)
-		{
-			one_minus_r_u[j] = prime_field::field_element(1) - r_u[j];
-			one_minus_r_v[j] = prime_field::field_element(1) - r_v[j];
-		}
 
 		for(int j = 0; j < C.circuit[i - 1].bit_length; ++j)
 		{	
@@ -961,6 +957,8 @@ bool zk_verifier::verify(const char* output_path)
 				trans.msg.push_back(container(poly.d, container::fld_ele_indicator));
 				trans.msg.push_back(container(poly.e, container::fld_ele_indicator));
 				trans.msg.push_back(container(poly.f, container::fld_ele_indicator));
+				r_u[j] = trans.random();
+				one_minus_r_u[j] = prime_field::field_element(1) - r_u[j];
 				previous_random = r_u[j];
 
 
@@ -983,6 +981,8 @@ bool zk_verifier::verify(const char* output_path)
 				trans.msg.push_back(container(poly.a, container::fld_ele_indicator));
 				trans.msg.push_back(container(poly.b, container::fld_ele_indicator));
 				trans.msg.push_back(container(poly.c, container::fld_ele_indicator));
+				r_u[j] = trans.random();
+				one_minus_r_u[j] = prime_field::field_element(1) - r_u[j];
 				previous_random = r_u[j];
 			
 
@@ -1005,8 +1005,11 @@ bool zk_verifier::verify(const char* output_path)
 	//	std::cerr << "Bound v start" << std::endl;
 		t0 = std::chrono::high_resolution_clock::now();
 		p -> sumcheck_phase2_init(previous_random, r_u, one_minus_r_u);
+		direct_relay_value = alpha * direct_relay(i, r_0, r_u) + beta * direct_relay(i, r_1, r_u);
 		//claimed once, before the second phase
 		auto v_u = p -> v_u;
+		proof_size += sizeof(prime_field::field_element) / 2;
+		trans.msg.push_back(container(v_u, container::fld_ele_indicator));
 		previous_random = prime_field::field_element(0);
 		for(int j = 0; j < C.circuit[i - 1].bit_length; ++j)
 		{
@@ -1020,6 +1023,8 @@ bool zk_verifier::verify(const char* output_path)
 				trans.msg.push_back(container(poly.e, container::fld_ele_indicator));
 				trans.msg.push_back(container(poly.f, container::fld_ele_indicator));
 				poly.f = poly.f;
+				r_v[j] = trans.random();
+				one_minus_r_v[j] = prime_field::field_element(1) - r_v[j];
 				previous_random = r_v[j];
 				if(poly.eval(0) + poly.eval(1) + direct_relay_value * v_u != alpha_beta_sum)
 				{
@@ -1041,6 +1046,8 @@ bool zk_verifier::verify(const char* output_path)
 				trans.msg.push_back(container(poly.c, container::fld_ele_indicator));
 				poly.c = poly.c;
 			
+				r_v[j] = trans.random();
+				one_minus_r_v[j] = prime_field::field_element(1) - r_v[j];
 				previous_random = r_v[j];
 				if(poly.eval(0) + poly.eval(1) + direct_relay_value * v_u != alpha_beta_sum)
 				{
@@ -1068,6 +1075,8 @@ bool zk_verifier::verify(const char* output_path)
 			return false;
 		}
 		auto v_v = final_claims.second;
+		proof_size += sizeof(prime_field::field_element) / 2;
+		trans.msg.push_back(container(v_v, container::fld_ele_indicator));
 
 		std::chrono::high_resolution_clock::time_point predicates_calc_t0 = std::chrono::high_resolution_clock::now();
 		prime_field::field_element Iuv = prime_field::field_element(1);
@@ -1094,6 +1103,11 @@ bool zk_verifier::verify(const char* output_path)
 		auto bit_test_value = predicates_value[13];
 		quadratic_poly poly = p->sumcheck_finalround(previous_random, C.circuit[i - 1].bit_length << 1, add_value * (v_u + v_v) + mult_value * v_u * v_v + not_value * (prime_field::field_element(1) - v_u) + minus_value * (v_u - v_v) + xor_value * (v_u + v_v - prime_field::field_element(2) * v_u * v_v) + naab_value * (v_v - v_u * v_v) + sum_value * v_u + relay_value * v_u + exp_sum_value * v_u + bit_test_value * (v_u * (prime_field::field_element(1) - v_v)));
 
+		proof_size += sizeof(quadratic_poly) / 2;
+		trans.msg.push_back(container(poly.a, container::fld_ele_indicator));
+		trans.msg.push_back(container(poly.b, container::fld_ele_indicator));
+		trans.msg.push_back(container(poly.c, container::fld_ele_indicator));
+		r_c[0] = trans.random();
 		if(poly.eval(0) + poly.eval(1) + direct_relay_value * v_u != alpha_beta_sum)
 		{
 			fprintf(stderr, "Verification fail, phase2, lastbit for c\n");
@@ -1193,6 +1207,14 @@ bool zk_verifier::verify(const char* output_path)
 		else
 		{
 		}
+		if(i != C.total_depth - 1)
+		{
+			trans.msg.push_back(container(maskRg1_value, container::fld_ele_indicator));
+			trans.msg.push_back(container(maskRg2_value, container::fld_ele_indicator));
+			proof_size += 2 * sizeof(prime_field::field_element) / 2;
+		}
+		trans.msg.push_back(container(maskpoly_value, container::fld_ele_indicator));
+		proof_size += sizeof(prime_field::field_element) / 2;
 		auto tmp_alpha = generate_randomness(1), tmp_beta = generate_randomness(1);
 		alpha = tmp_alpha[0];
 		beta = tmp_beta[0];
@@ -1259,6 +1281,8 @@ bool zk_verifier::verify(const char* output_path)
 
 	auto is0 = input_0_mpz.get_str();
 	input_0.value = prime_field::u512b(is0.c_str(), is0.length(), 10);
+	proof_size += sizeof(prime_field::field_element) / 2;
+	trans.msg.push_back(container(input_0, container::fld_ele_indicator));
 	
 	delete[] r_0;
 	delete[] r_1;
-- 
2.43.0


From ac21421e8341531ae67301634e4dc216878d563e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 18:01:25 +0000
Subject: [PATCH 20/22] fix: zero-knowledge verifier dropped block-final sums
 of parallel layers

---
 src/linear_gkr/zk_verifier.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/linear_gkr/zk_verifier.cpp b/src/linear_gkr/zk_verifier.cpp
index f65a227..e6544dd 100644
--- a/src/linear_gkr/zk_verifier.cpp
+++ b/src/linear_gkr/zk_verifier.cpp
@@ -283,6 +283,8 @@ vector<prime_field::field_element> zk_verifier::predicates(int depth, prime_fiel
 					auto beta_g_val_alpha = beta_g_r0_block_first_half[g_first_half] * beta_g_r0_block_second_half[g_second_half];
 					auto beta_g_val_beta = beta_g_r1_block_first_half[g_first_half] * beta_g_r1_block_second_half[g_second_half];
 					auto beta_v_0 = beta_v_block_first_half[0] * beta_v_block_second_half[0];
+					//the end of the range is exclusive and may be the end of the block
+					v = ((C.circuit[depth].gates[i].v - 1) & ((1 << C.circuit[depth - 1].log_block_size) - 1)) + 1;
 					for(int j = u; j < v; ++j)
 					{
 						int u_first_half = j & ((1 << first_half_uv) - 1);
-- 
2.43.0


From 2f55e13047490c223f7ba6ae18d7641db752cda8 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 19:39:56 +0000
Subject: [PATCH 21/22] fix: circuit inputs outside 0..2^31-1 were truncated,
 negative ones misread

---
 include/linear_gkr/circuit_fast_track.h      | 5 +++--
 include/linear_gkr/prime_field.h             | 1 +
 include/traditional_gkr/circuit_bc_clogc.h   | 5 +++--
 src/linear_gkr/prime_field.cpp               | 9 +++++++--
 src/linear_gkr/prover_fast_para_track.cpp    | 4 ++--
 src/linear_gkr/prover_fast_track.cpp         | 4 ++--
 src/linear_gkr/verifier_fast_para_track.cpp  | 5 +++--
 src/linear_gkr/verifier_fast_track.cpp       | 5 +++--
 src/linear_gkr/zk_prover.cpp                 | 3 ++-
 src/traditional_gkr/prover_bc_clogc.cpp      | 4 ++--
 src/traditional_gkr/prover_clogc.cpp         | 4 ++--
 src/traditional_gkr/verifier_bc_clogc.cpp    | 5 +++--
 src/traditional_gkr/verifier_traditional.cpp | 5 +++--
 13 files changed, 36 insertions(+), 23 deletions(-)

diff --git a/include/linear_gkr/circuit_fast_track.h b/include/linear_gkr/circuit_fast_track.h
index 985da2e..0fcbc3e 100644
--- a/include/linear_gkr/circuit_fast_track.h
+++ b/include/linear_gkr/circuit_fast_track.h
@@ -8,9 +8,10 @@
 class gate
 {
 public:
-	int ty, u, v;
+	int ty;
+	long long u, v; //u is the value of an input gate
 	gate(){}
-	gate(int t, int U, int V)
+	gate(int t, long long U, long long V)
 	{
 		ty = t, u = U, v = V;
 	}
diff --git a/include/linear_gkr/prime_field.h b/include/linear_gkr/prime_field.h
index 13f7dec..c16280b 100644
--- a/include/linear_gkr/prime_field.h
+++ b/include/linear_gkr/prime_field.h
@@ -96,6 +96,7 @@ namespace prime_field
 		field_element();
 		field_element(const int);
 		field_element(const unsigned long long);
+		field_element(const long long);
 		field_element operator + (const field_element &b) const;
 		field_element operator * (const field_element &b) const;
 		field_element operator / (const field_element &b) const;
diff --git a/include/traditional_gkr/circuit_bc_clogc.h b/include/traditional_gkr/circuit_bc_clogc.h
index 961b28c..6e4dda2 100644
--- a/include/traditional_gkr/circuit_bc_clogc.h
+++ b/include/traditional_gkr/circuit_bc_clogc.h
@@ -8,9 +8,10 @@
 class gate
 {
 public:
-	int ty, u, v;
+	int ty;
+	long long u, v; //u is the value of an input gate
 	gate(){}
-	gate(int t, int U, int V)
+	gate(int t, long long U, long long V)
 	{
 		ty = t, u = U, v = V;
 	}
diff --git a/src/linear_gkr/prime_field.cpp b/src/linear_gkr/prime_field.cpp
index 23edac2..c50d89d 100644
--- a/src/linear_gkr/prime_field.cpp
+++ b/src/linear_gkr/prime_field.cpp
@@ -509,9 +509,14 @@ namespace prime_field
 	{
 		value = (u256b)(unsigned long long)0;
 	}
-	field_element::field_element(const int x)
+	field_element::field_element(const int x) : field_element((long long)x)
 	{
-		value = (u256b)(unsigned long long)x;
+	}
+	field_element::field_element(const long long x)
+	{
+		value = (u256b)(x < 0 ? -(unsigned long long)x : (unsigned long long)x);
+		if(x < 0)
+			value = mod_512 - value;
 	}
 	field_element::field_element(const unsigned long long x)
 	{
diff --git a/src/linear_gkr/prover_fast_para_track.cpp b/src/linear_gkr/prover_fast_para_track.cpp
index 9462a19..b102015 100644
--- a/src/linear_gkr/prover_fast_para_track.cpp
+++ b/src/linear_gkr/prover_fast_para_track.cpp
@@ -65,10 +65,10 @@ prime_field::field_element* prover::evaluate()
 	circuit_value[0] = new prime_field::field_element[(1 << C.circuit[0].bit_length)];
 	for(int i = 0; i < (1 << C.circuit[0].bit_length); ++i)
 	{
-		int g, u, v, ty;
+		int g, ty;
+		long long u;
 		g = i;
 		u = C.circuit[0].gates[g].u;
-		v = C.circuit[0].gates[g].v;
 		ty = C.circuit[0].gates[g].ty;
 		assert(ty == 3 || ty == 2);
 		circuit_value[0][g] = prime_field::field_element(u);
diff --git a/src/linear_gkr/prover_fast_track.cpp b/src/linear_gkr/prover_fast_track.cpp
index 8273506..618757e 100644
--- a/src/linear_gkr/prover_fast_track.cpp
+++ b/src/linear_gkr/prover_fast_track.cpp
@@ -38,10 +38,10 @@ prime_field::field_element* prover::evaluate()
 	circuit_value[0] = new prime_field::field_element[(1 << C.circuit[0].bit_length)];
 	for(int i = 0; i < (1 << C.circuit[0].bit_length); ++i)
 	{
-		int g, u, v, ty;
+		int g, ty;
+		long long u;
 		g = i;
 		u = C.circuit[0].gates[g].u;
-		v = C.circuit[0].gates[g].v;
 		ty = C.circuit[0].gates[g].ty;
 		assert(ty == 3 || ty == 2);
 		circuit_value[0][g] = prime_field::field_element(u);
diff --git a/src/linear_gkr/verifier_fast_para_track.cpp b/src/linear_gkr/verifier_fast_para_track.cpp
index e14e545..21d7c48 100644
--- a/src/linear_gkr/verifier_fast_para_track.cpp
+++ b/src/linear_gkr/verifier_fast_para_track.cpp
@@ -32,8 +32,9 @@ void verifier::read_circuit(const char *path)
 		int previous_g = -1;
 		for(int j = 0; j < n; ++j)
 		{
-			int ty, g, u, v;
-			fscanf(circuit_in, "%d%d%d%d", &ty, &g, &u, &v);
+			int ty, g;
+			long long u, v;
+			fscanf(circuit_in, "%d%d%lld%lld", &ty, &g, &u, &v);
 			if(g != previous_g + 1)
 			{
 				printf("Error, gates must be in sorted order, and full [0, 2^n - 1].");
diff --git a/src/linear_gkr/verifier_fast_track.cpp b/src/linear_gkr/verifier_fast_track.cpp
index 6c00862..3c83c31 100644
--- a/src/linear_gkr/verifier_fast_track.cpp
+++ b/src/linear_gkr/verifier_fast_track.cpp
@@ -147,8 +147,9 @@ void verifier::read_circuit_from_string(char* file)
 		int previous_g = -1;
 		for(int j = 0; j < n; ++j)
 		{
-			int ty, g, u, v;
-			sscanf(file, "%d%d%d%d%n", &ty, &g, &u, &v, &offset);
+			int ty, g;
+			long long u, v;
+			sscanf(file, "%d%d%lld%lld%n", &ty, &g, &u, &v, &offset);
 			file += offset;
 			if(g != previous_g + 1)
 			{
diff --git a/src/linear_gkr/zk_prover.cpp b/src/linear_gkr/zk_prover.cpp
index 931905d..3b56639 100644
--- a/src/linear_gkr/zk_prover.cpp
+++ b/src/linear_gkr/zk_prover.cpp
@@ -57,7 +57,8 @@ prime_field::field_element* zk_prover::evaluate()
 	circuit_value[0] = new prime_field::field_element[(1 << C.circuit[0].bit_length)];
 	for(int i = 0; i < (1 << C.circuit[0].bit_length); ++i)
 	{
-		int g, u, ty;
+		int g, ty;
+		long long u;
 		g = i;
 		u = C.circuit[0].gates[g].u;
 		ty = C.circuit[0].gates[g].ty;
diff --git a/src/traditional_gkr/prover_bc_clogc.cpp b/src/traditional_gkr/prover_bc_clogc.cpp
index a632193..4f22cc8 100644
--- a/src/traditional_gkr/prover_bc_clogc.cpp
+++ b/src/traditional_gkr/prover_bc_clogc.cpp
@@ -55,10 +55,10 @@ prime_field::field_element* prover::evaluate()
 		circuit_value[blk][0] = new prime_field::field_element[(1 << C.blocks[blk].circuit[0].bit_length)];
 		for(int i = 0; i < (1 << C.blocks[blk].circuit[0].bit_length); ++i)
 		{
-			int g, u, v, ty;
+			int g, ty;
+			long long u;
 			g = i;
 			u = C.blocks[blk].circuit[0].gates[g].u;
-			v = C.blocks[blk].circuit[0].gates[g].v;
 			ty = C.blocks[blk].circuit[0].gates[g].ty;
 			assert(ty == 3 || ty == 2);
 			circuit_value[blk][0][g] = prime_field::field_element(u);
diff --git a/src/traditional_gkr/prover_clogc.cpp b/src/traditional_gkr/prover_clogc.cpp
index a89cabc..4c13c19 100644
--- a/src/traditional_gkr/prover_clogc.cpp
+++ b/src/traditional_gkr/prover_clogc.cpp
@@ -38,10 +38,10 @@ prime_field::field_element* prover::evaluate()
 	circuit_value[0] = new prime_field::field_element[(1 << C.circuit[0].bit_length)];
 	for(int i = 0; i < (1 << C.circuit[0].bit_length); ++i)
 	{
-		int g, u, v, ty;
+		int g, ty;
+		long long u;
 		g = i;
 		u = C.circuit[0].gates[g].u;
-		v = C.circuit[0].gates[g].v;
 		ty = C.circuit[0].gates[g].ty;
 		assert(ty == 3 || ty == 2);
 		circuit_value[0][g] = prime_field::field_element(u);
diff --git a/src/traditional_gkr/verifier_bc_clogc.cpp b/src/traditional_gkr/verifier_bc_clogc.cpp
index 0c23b21..b7adc72 100644
--- a/src/traditional_gkr/verifier_bc_clogc.cpp
+++ b/src/traditional_gkr/verifier_bc_clogc.cpp
@@ -41,8 +41,9 @@ void verifier::read_circuit(const char* path, int n_copy)
 		int previous_g = -1;
 		for(int j = 0; j < n; ++j)
 		{
-			int ty, g, u, v;
-			fscanf(input_file, "%d%d%d%d", &ty, &g, &u, &v);
+			int ty, g;
+			long long u, v;
+			fscanf(input_file, "%d%d%lld%lld", &ty, &g, &u, &v);
 			if(g != previous_g + 1)
 			{
 				printf("Error, gates must be in sorted order, and full [0, 2^n - 1].");
diff --git a/src/traditional_gkr/verifier_traditional.cpp b/src/traditional_gkr/verifier_traditional.cpp
index 34d4bad..d7b784b 100644
--- a/src/traditional_gkr/verifier_traditional.cpp
+++ b/src/traditional_gkr/verifier_traditional.cpp
@@ -30,8 +30,9 @@ void verifier::read_circuit_from_FILE(FILE* file)
 		int previous_g = -1;
 		for(int j = 0; j < n; ++j)
 		{
-			int ty, g, u, v;
-			fscanf(file, "%d%d%d%d", &ty, &g, &u, &v);
+			int ty, g;
+			long long u, v;
+			fscanf(file, "%d%d%lld%lld", &ty, &g, &u, &v);
 			if(g != previous_g + 1)
 			{
 				printf("Error, gates must be in sorted order, and full [0, 2^n - 1].");
-- 
2.43.0


From 8b75a34bd2466c17669561ad2b85835fb7867985 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 20:07:29 +0000
Subject: [PATCH 22/22] fix: blocked prover read past its arrays when there is
 a single block

---
 src/traditional_gkr/prover_bc_clogc.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/traditional_gkr/prover_bc_clogc.cpp b/src/traditional_gkr/prover_bc_clogc.cpp
index 4f22cc8..41960c0 100644
--- a/src/traditional_gkr/prover_bc_clogc.cpp
+++ b/src/traditional_gkr/prover_bc_clogc.cpp
@@ -349,16 +349,17 @@ void prover::sumcheck_phase1_init(prime_field::field_element previous_random)
 	//CMT protocol uses an O(n log n) one
 	total_uv = (1 << length_u);
 	prime_field::field_element zero = prime_field::field_element(0);
+	int last_blk = block_binary_length == 0 ? 0 : 1; //a single block has no second half to fold
 	for(int i = 0; i < total_uv; ++i)
 	{
 		prime_field::field_element one_value, zero_value;
-		one_value = block_v_value[1 << length_u | i];
+		one_value = block_v_value[last_blk << length_u | i];
 		zero_value = block_v_value[i];
 
 		V_mult_add[i] = (one_value - zero_value) * previous_random + zero_value;
 		V_mult_add_copy[i] = V_mult_add[i];
 	}
-	beta_blk_val = (block_beta_value[1] - block_beta_value[0]) * previous_random + block_beta_value[0];
+	beta_blk_val = (block_beta_value[last_blk] - block_beta_value[0]) * previous_random + block_beta_value[0];
 	
 	std::chrono::high_resolution_clock::time_point t1 = std::chrono::high_resolution_clock::now();
 	std::chrono::duration<double> time_span = std::chrono::duration_cast<std::chrono::duration<double>>(t1 - t0);
-- 
2.43.0

