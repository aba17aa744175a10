From 3efb5a90b18321a96092bafe557e5fcf756d26c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:36:09 +0000
Subject: [PATCH 01/14] fix: SHA-256: pad to two blocks when the message length
 is 63 mod 64

(size + 1)%64 > 56 is false for size%64 == 63, so the padded copy was
allocated one block too small: stack overflow and a wrong digest.
---
 Hash/SHA/SHA-2/SHA-256/sha-256.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Hash/SHA/SHA-2/SHA-256/sha-256.cpp b/Hash/SHA/SHA-2/SHA-256/sha-256.cpp
index f80b922..a900cd3 100644
--- a/Hash/SHA/SHA-2/SHA-256/sha-256.cpp
+++ b/Hash/SHA/SHA-2/SHA-256/sha-256.cpp
@@ -48,7 +48,7 @@ void sha256_process_message(uint8_t *digest, uint8_t *message, uint64_t size)
 {
 	int n = 0;
 	// Declare message to hold padded text
-	if ( (size + 1)%64 > 56 )
+	if ( (size)%64 >= 56 )
 	{
 		n = (size/64)*64 + 128;
 	} else {
-- 
2.43.0


From 2ad23a353093ef24dba22957e6f0e6d5b99e317c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:55:48 +0000
Subject: [PATCH 02/14] fix: HMAC: tag of an empty message is generated instead
 of left uninitialised

hmac_tag_generation returned without writing the tag when the message was
empty, so hmac_tag_validation compared the presented tag with leftover
stack memory.
---
 Authentication/HMAC-SHA-256/hmac.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/Authentication/HMAC-SHA-256/hmac.cpp b/Authentication/HMAC-SHA-256/hmac.cpp
index 73e014e..895a45b 100644
--- a/Authentication/HMAC-SHA-256/hmac.cpp
+++ b/Authentication/HMAC-SHA-256/hmac.cpp
@@ -55,9 +55,6 @@ void hmac_load_key(hmac_state *cs, uint8_t *key, int keysize)
 
 void hmac_tag_generation(hmac_state *cs, uint8_t *tag, uint8_t *message, uint64_t dataLength, int tagLength)
 {
-	// Assert that datalength is strictly positive
-	if ( dataLength < 1 ) return;
-
 	// The inner key is used in the first computation along with the message
 	uint8_t *inner_computation = new uint8_t[dataLength+HMAC_KEYLENGTH];
 	std::memcpy(inner_computation, cs->inner_key, HMAC_KEYLENGTH);
-- 
2.43.0


From 289d47c10050bb5461ec1046169b78291340ccf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:44:05 +0000
Subject: [PATCH 03/14] fix: AES-CTR: use the leading keystream bytes for a
 partial last word

The tail loop shifted the keystream word by 24 and then by 32, 40 bits
(undefined), because l was decremented; the bytes used were neither the
next keystream bytes nor well defined.
---
 BlockCiphers/AES/AES/AES_CTR/aes_ctr.cpp     | 2 +-
 BlockCiphers/AES/AES_ARM/AES_CTR/aes_ctr.cpp | 2 +-
 BlockCiphers/AES/AES_x86/AES_CTR/aes_ctr.cpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/BlockCiphers/AES/AES/AES_CTR/aes_ctr.cpp b/BlockCiphers/AES/AES/AES_CTR/aes_ctr.cpp
index edb761c..3d010d9 100644
--- a/BlockCiphers/AES/AES/AES_CTR/aes_ctr.cpp
+++ b/BlockCiphers/AES/AES/AES_CTR/aes_ctr.cpp
@@ -179,7 +179,7 @@ void aes_ctr_process_packet(aes_state *cs, uint8_t *out, uint8_t *in, int size)
 				uint8_t *byte_ptr_in = (uint8_t*) w_ptr_in;
 				while (size > 0)
 				{
-					*byte_ptr_out = (*byte_ptr_in) ^ ( (uint8_t)(keystream[k] >> (24 - (8*(l--)))));
+					*byte_ptr_out = (*byte_ptr_in) ^ ( (uint8_t)(keystream[k] >> (8*(l++))));
 					byte_ptr_out++; byte_ptr_in++;
 					size -= 1;
 				}
diff --git a/BlockCiphers/AES/AES_ARM/AES_CTR/aes_ctr.cpp b/BlockCiphers/AES/AES_ARM/AES_CTR/aes_ctr.cpp
index 8a14ccb..33e2c0e 100644
--- a/BlockCiphers/AES/AES_ARM/AES_CTR/aes_ctr.cpp
+++ b/BlockCiphers/AES/AES_ARM/AES_CTR/aes_ctr.cpp
@@ -214,7 +214,7 @@ void aes_ctr_process_packet(aes_state *cs, uint8_t *out, uint8_t *in, int size)
 				uint8_t *byte_ptr_in = (uint8_t*) w_ptr_in;
 				while (size > 0)
 				{
-					*byte_ptr_out = (*byte_ptr_in) ^ ( (uint8_t)(keystream[k] >> (24 - (8*(l--)))));
+					*byte_ptr_out = (*byte_ptr_in) ^ ( (uint8_t)(keystream[k] >> (8*(l++))));
 					byte_ptr_out++; byte_ptr_in++;
 					size -= 1;
 				}
diff --git a/BlockCiphers/AES/AES_x86/AES_CTR/aes_ctr.cpp b/BlockCiphers/AES/AES_x86/AES_CTR/aes_ctr.cpp
index 2b8292c..7ae1057 100644
--- a/BlockCiphers/AES/AES_x86/AES_CTR/aes_ctr.cpp
+++ b/BlockCiphers/AES/AES_x86/AES_CTR/aes_ctr.cpp
@@ -214,7 +214,7 @@ void aes_ctr_process_packet(aes_state *cs, uint8_t *out, uint8_t *in, int size)
 				uint8_t *byte_ptr_in = (uint8_t*) w_ptr_in;
 				while (size > 0)
 				{
-					*byte_ptr_out = (*byte_ptr_in) ^ ( (uint8_t)(keystream[k] >> (24 - (8*(l--)))));
+					*byte_ptr_out = (*byte_ptr_in) ^ ( (uint8_t)(keystream[k] >> (8*(l++))));
 					byte_ptr_out++; byte_ptr_in++;
 					size -= 1;
 				}
-- 
2.43.0


From 4eae3e4801c47cb07232496b27babf20070e40b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:44:05 +0000
Subject: [PATCH 04/14] fix: AES-CFB: no out-of-range shift in the partial last
 word

l was decremented, so the second and third tail byte shifted a 32-bit word
by 32 and 40 bits (undefined behaviour).
---
 BlockCiphers/AES/AES/AES_CFB/aes_cfb.cpp                | 2 +-
 BlockCiphers/AES/AES_ARM/AES_CFB_Carry-Over/aes_cfb.cpp | 2 +-
 BlockCiphers/AES/AES_x86/AES_CFB_Carry-Over/aes_cfb.cpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/BlockCiphers/AES/AES/AES_CFB/aes_cfb.cpp b/BlockCiphers/AES/AES/AES_CFB/aes_cfb.cpp
index 24dd469..600181f 100644
--- a/BlockCiphers/AES/AES/AES_CFB/aes_cfb.cpp
+++ b/BlockCiphers/AES/AES/AES_CFB/aes_cfb.cpp
@@ -301,7 +301,7 @@ void aes_cfb_process_packet(aes_state *cs, uint8_t *out, uint8_t *in, int size,
 				uint8_t *byte_ptr_in = (uint8_t*) w_ptr_in;
 				while (size > 0)
 				{
-					*byte_ptr_out = (*byte_ptr_in) ^ ( (uint8_t)(keystream[k] >> (24 - (8*(l--)))));
+					*byte_ptr_out = (*byte_ptr_in) ^ ( (uint8_t)(keystream[k] >> (24 - (8*(l++)))));
 					byte_ptr_out++; byte_ptr_in++;
 					size -= 1;
 				}
diff --git a/BlockCiphers/AES/AES_ARM/AES_CFB_Carry-Over/aes_cfb.cpp b/BlockCiphers/AES/AES_ARM/AES_CFB_Carry-Over/aes_cfb.cpp
index cf354cb..948f5bf 100644
--- a/BlockCiphers/AES/AES_ARM/AES_CFB_Carry-Over/aes_cfb.cpp
+++ b/BlockCiphers/AES/AES_ARM/AES_CFB_Carry-Over/aes_cfb.cpp
@@ -337,7 +337,7 @@ void aes_cfb_process_packet(aes_state *cs, uint8_t *out, uint8_t *in, int size,
 				uint8_t *byte_ptr_in = (uint8_t*) w_ptr_in;
 				while (size > 0)
 				{
-					*byte_ptr_out = (*byte_ptr_in) ^ ( (uint8_t)(keystream[k] >> (24 - (8*(l--)))));
+					*byte_ptr_out = (*byte_ptr_in) ^ ( (uint8_t)(keystream[k] >> (24 - (8*(l++)))));
 					byte_ptr_out++; byte_ptr_in++;
 					size -= 1;
 				}
diff --git a/BlockCiphers/AES/AES_x86/AES_CFB_Carry-Over/aes_cfb.cpp b/BlockCiphers/AES/AES_x86/AES_CFB_Carry-Over/aes_cfb.cpp
index c401888..c95b5c7 100644
--- a/BlockCiphers/AES/AES_x86/AES_CFB_Carry-Over/aes_cfb.cpp
+++ b/BlockCiphers/AES/AES_x86/AES_CFB_Carry-Over/aes_cfb.cpp
@@ -336,7 +336,7 @@ void aes_cfb_process_packet(aes_state *cs, uint8_t *out, uint8_t *in, int size,
 				uint8_t *byte_ptr_in = (uint8_t*) w_ptr_in;
 				while (size > 0)
 				{
-					*byte_ptr_out = (*byte_ptr_in) ^ ( (uint8_t)(keystream[k] >> (24 - (8*(l--)))));
+					*byte_ptr_out = (*byte_ptr_in) ^ ( (uint8_t)(keystream[k] >> (24 - (8*(l++)))));
 					byte_ptr_out++; byte_ptr_in++;
 					size -= 1;
 				}
-- 
2.43.0


From 18738748abbe7288fc1d4289d0c9271ce8e247fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:44:05 +0000
Subject: [PATCH 05/14] fix: AES-CFB x86: keep the encrypted register when
 AES-NI is used

The portable code and the ARM intrinsics leave the block cipher output in
the registers, which partial_state_update shifts in after a partial block;
the AES-NI path did not, so it lost synchronisation with the other builds.
---
 BlockCiphers/AES/AES_x86/AES_CFB_Carry-Over/aes_cfb.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/BlockCiphers/AES/AES_x86/AES_CFB_Carry-Over/aes_cfb.cpp b/BlockCiphers/AES/AES_x86/AES_CFB_Carry-Over/aes_cfb.cpp
index c95b5c7..be6ce40 100644
--- a/BlockCiphers/AES/AES_x86/AES_CFB_Carry-Over/aes_cfb.cpp
+++ b/BlockCiphers/AES/AES_x86/AES_CFB_Carry-Over/aes_cfb.cpp
@@ -97,6 +97,7 @@ void aes_encrypt(aes_state *cs, uint32_t keystream[])
 	B_S = _mm_aesenclast_si128 (B_S, B_K10);
 
 	_mm_storeu_si128 ((__m128i*)keystream, B_S);
+	_mm_storeu_si128 ((__m128i*)&cs->reg1, B_S);
 
 #else
 	initial_round(&(cs->reg1), &(cs->reg2), &(cs->reg3), &(cs->reg4), &(cs->rk[0]));
-- 
2.43.0


From 8cd97e7c55bd7b52b88b38e18183fb1e48f4a22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:08:33 +0000
Subject: [PATCH 06/14] fix: AEGIS-128 packets shorter than a block overran
 their buffers (unsigned underflow of the loop bound)

---
 StreamCiphers/AEGIS/AEGIS/aegis_128.cpp     | 8 ++++----
 StreamCiphers/AEGIS/AEGIS_ARM/aegis_128.cpp | 8 ++++----
 StreamCiphers/AEGIS/AEGIS_x86/aegis_128.cpp | 8 ++++----
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/StreamCiphers/AEGIS/AEGIS/aegis_128.cpp b/StreamCiphers/AEGIS/AEGIS/aegis_128.cpp
index 6ab347b..242c047 100644
--- a/StreamCiphers/AEGIS/AEGIS/aegis_128.cpp
+++ b/StreamCiphers/AEGIS/AEGIS/aegis_128.cpp
@@ -119,7 +119,7 @@ void aegis_encrypt(aegis_state *cs, uint8_t *ct, uint8_t *pt, uint64_t msglen)
 	uint64_t tmp = 0;
 
 	// Encrypt full blocks
-	for (tmp; tmp < (msglen-15); tmp = tmp+16)
+	for (tmp; tmp + 15 < msglen; tmp = tmp+16)
 	{
 		// Encrypt using state
 		*ct_w_ptr++ = *pt_w_ptr++ ^ cs->s1[0] ^ cs->s4[0] ^ (cs->s2[0] & cs->s3[0]);
@@ -141,7 +141,7 @@ void aegis_encrypt(aegis_state *cs, uint8_t *ct, uint8_t *pt, uint64_t msglen)
 	int i = 0;
 
 	// Encrypt individual words if applicable
-	for (tmp; tmp < (msglen-3); tmp = tmp+4)
+	for (tmp; tmp + 3 < msglen; tmp = tmp+4)
 	{
 		*ct_w_ptr++ = *pt_w_ptr++ ^ cs->s1[i] ^ cs->s4[i] ^ (cs->s2[i] & cs->s3[i]);
 		i++;
@@ -169,7 +169,7 @@ void aegis_decrypt(aegis_state *cs, uint8_t *pt, uint8_t *ct, uint64_t msglen)
 	uint32_t *ct_w_ptr = (uint32_t*)ct;
 	
 	uint64_t tmp = 0;
-	for (tmp; tmp < msglen-15; tmp += 16)
+	for (tmp; tmp + 15 < msglen; tmp += 16)
 	{
 		// Decrypt using state
 		*pt_w_ptr++ = *ct_w_ptr++ ^ cs->s1[0] ^ cs->s4[0] ^ (cs->s2[0] & cs->s3[0]);
@@ -191,7 +191,7 @@ void aegis_decrypt(aegis_state *cs, uint8_t *pt, uint8_t *ct, uint64_t msglen)
 
 	int i = 0;
 
-	for (tmp; tmp < (msglen-3); tmp = tmp+4)
+	for (tmp; tmp + 3 < msglen; tmp = tmp+4)
 	{
 		*pt_w_ptr++ = *ct_w_ptr++ ^ cs->s1[i] ^ cs->s4[i] ^ (cs->s2[i] & cs->s3[i]);
 		i++;
diff --git a/StreamCiphers/AEGIS/AEGIS_ARM/aegis_128.cpp b/StreamCiphers/AEGIS/AEGIS_ARM/aegis_128.cpp
index 64b25bb..17d8da0 100644
--- a/StreamCiphers/AEGIS/AEGIS_ARM/aegis_128.cpp
+++ b/StreamCiphers/AEGIS/AEGIS_ARM/aegis_128.cpp
@@ -119,7 +119,7 @@ void aegis_encrypt(aegis_state *cs, uint8_t *ct, uint8_t *pt, uint64_t msglen)
 	uint64_t tmp = 0;
 
 	// Encrypt full blocks
-	for (tmp; tmp < (msglen-15); tmp = tmp+16)
+	for (tmp; tmp + 15 < msglen; tmp = tmp+16)
 	{
 		// Encrypt using state
 		*ct_w_ptr++ = *pt_w_ptr++ ^ cs->s1[0] ^ cs->s4[0] ^ (cs->s2[0] & cs->s3[0]);
@@ -141,7 +141,7 @@ void aegis_encrypt(aegis_state *cs, uint8_t *ct, uint8_t *pt, uint64_t msglen)
 	int i = 0;
 
 	// Encrypt individual words if applicable
-	for (tmp; tmp < (msglen-3); tmp = tmp+4)
+	for (tmp; tmp + 3 < msglen; tmp = tmp+4)
 	{
 		*ct_w_ptr++ = *pt_w_ptr++ ^ cs->s1[i] ^ cs->s4[i] ^ (cs->s2[i] & cs->s3[i]);
 		i++;
@@ -169,7 +169,7 @@ void aegis_decrypt(aegis_state *cs, uint8_t *pt, uint8_t *ct, uint64_t msglen)
 	uint32_t *ct_w_ptr = (uint32_t*)ct;
 	
 	uint64_t tmp = 0;
-	for (tmp; tmp < msglen-15; tmp += 16)
+	for (tmp; tmp + 15 < msglen; tmp += 16)
 	{
 		// Decrypt using state
 		*pt_w_ptr++ = *ct_w_ptr++ ^ cs->s1[0] ^ cs->s4[0] ^ (cs->s2[0] & cs->s3[0]);
@@ -191,7 +191,7 @@ void aegis_decrypt(aegis_state *cs, uint8_t *pt, uint8_t *ct, uint64_t msglen)
 
 	int i = 0;
 
-	for (tmp; tmp < (msglen-3); tmp = tmp+4)
+	for (tmp; tmp + 3 < msglen; tmp = tmp+4)
 	{
 		*pt_w_ptr++ = *ct_w_ptr++ ^ cs->s1[i] ^ cs->s4[i] ^ (cs->s2[i] & cs->s3[i]);
 		i++;
diff --git a/StreamCiphers/AEGIS/AEGIS_x86/aegis_128.cpp b/StreamCiphers/AEGIS/AEGIS_x86/aegis_128.cpp
index f022ed2..f028cef 100644
--- a/StreamCiphers/AEGIS/AEGIS_x86/aegis_128.cpp
+++ b/StreamCiphers/AEGIS/AEGIS_x86/aegis_128.cpp
@@ -119,7 +119,7 @@ void aegis_encrypt(aegis_state *cs, uint8_t *ct, uint8_t *pt, uint64_t msglen)
 	uint64_t tmp = 0;
 
 	// Encrypt full blocks
-	for (tmp; tmp < (msglen-15); tmp = tmp+16)
+	for (tmp; tmp + 15 < msglen; tmp = tmp+16)
 	{
 		// Encrypt using state
 		*ct_w_ptr++ = *pt_w_ptr++ ^ cs->s1[0] ^ cs->s4[0] ^ (cs->s2[0] & cs->s3[0]);
@@ -141,7 +141,7 @@ void aegis_encrypt(aegis_state *cs, uint8_t *ct, uint8_t *pt, uint64_t msglen)
 	int i = 0;
 
 	// Encrypt individual words if applicable
-	for (tmp; tmp < (msglen-3); tmp = tmp+4)
+	for (tmp; tmp + 3 < msglen; tmp = tmp+4)
 	{
 		*ct_w_ptr++ = *pt_w_ptr++ ^ cs->s1[i] ^ cs->s4[i] ^ (cs->s2[i] & cs->s3[i]);
 		i++;
@@ -169,7 +169,7 @@ void aegis_decrypt(aegis_state *cs, uint8_t *pt, uint8_t *ct, uint64_t msglen)
 	uint32_t *ct_w_ptr = (uint32_t*)ct;
 	
 	uint64_t tmp = 0;
-	for (tmp; tmp < msglen-15; tmp += 16)
+	for (tmp; tmp + 15 < msglen; tmp += 16)
 	{
 		// Decrypt using state
 		*pt_w_ptr++ = *ct_w_ptr++ ^ cs->s1[0] ^ cs->s4[0] ^ (cs->s2[0] & cs->s3[0]);
@@ -191,7 +191,7 @@ void aegis_decrypt(aegis_state *cs, uint8_t *pt, uint8_t *ct, uint64_t msglen)
 
 	int i = 0;
 
-	for (tmp; tmp < (msglen-3); tmp = tmp+4)
+	for (tmp; tmp + 3 < msglen; tmp = tmp+4)
 	{
 		*pt_w_ptr++ = *ct_w_ptr++ ^ cs->s1[i] ^ cs->s4[i] ^ (cs->s2[i] & cs->s3[i]);
 		i++;
-- 
2.43.0


From 41291d170d4fdb1ce3c62668bb0b0cf871f595a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:41:35 +0000
Subject: [PATCH 07/14] fix: Rabbit lost the counter carry when a counter sum
 was exactly 2^32

---
 StreamCiphers/Rabbit/rabbit.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/StreamCiphers/Rabbit/rabbit.h b/StreamCiphers/Rabbit/rabbit.h
index d085d22..512fc2c 100644
--- a/StreamCiphers/Rabbit/rabbit.h
+++ b/StreamCiphers/Rabbit/rabbit.h
@@ -61,7 +61,7 @@ inline void rabbit_counter(rabbit_state *cs)
 	for (int j = 0; j < 8; j++)
 	{
 		temp = (uint64_t)cs->C[j] + (uint64_t)A[j] + (uint64_t)cs->carry;
-		cs->carry = temp > WORDSIZE;
+		cs->carry = temp >= WORDSIZE;
 #ifdef DEBUG
 		std::cout << "Wordsize: " << WORDSIZE << std::endl;
 
-- 
2.43.0


From 165d66475ec2947311f754084cfc684c886238e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:41:35 +0000
Subject: [PATCH 08/14] fix: Rabbit's g function squared in a signed type and
 overflowed

---
 StreamCiphers/Rabbit/rabbit.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/StreamCiphers/Rabbit/rabbit.h b/StreamCiphers/Rabbit/rabbit.h
index 512fc2c..57f0157 100644
--- a/StreamCiphers/Rabbit/rabbit.h
+++ b/StreamCiphers/Rabbit/rabbit.h
@@ -39,7 +39,7 @@ struct rabbit_state{
 
 inline uint32_t g(uint32_t u, uint32_t v)
 {
-	uint64_t hold = ((u+v) % WORDSIZE) * ((u+v) % WORDSIZE);
+	uint64_t hold = (uint64_t)((u+v) % WORDSIZE) * (uint64_t)((u+v) % WORDSIZE);
 	uint32_t LSW = hold & 0xffffffff;
 	uint32_t MSW = (hold >> 32) & 0xffffffff;
 	return (LSW ^ MSW);
-- 
2.43.0


From 7e1485429b7df96275b7304534419e5b738b5412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:41:35 +0000
Subject: [PATCH 09/14] fix: loading a Rabbit IV kept the counter carry of the
 previous packets

---
 StreamCiphers/Rabbit/rabbit.cpp | 2 ++
 StreamCiphers/Rabbit/rabbit.h   | 1 +
 2 files changed, 3 insertions(+)

diff --git a/StreamCiphers/Rabbit/rabbit.cpp b/StreamCiphers/Rabbit/rabbit.cpp
index 44e9ab3..90acd8e 100644
--- a/StreamCiphers/Rabbit/rabbit.cpp
+++ b/StreamCiphers/Rabbit/rabbit.cpp
@@ -92,6 +92,7 @@ void rabbit_load_key(rabbit_state *cs, uint8_t key[16])
 		cs->MASTER_C[j] = cs->C[j];
 		cs->MASTER_X[j] = cs->X[j];
 	}
+	cs->MASTER_carry = cs->carry;
 #ifdef DEBUG
 	std::cout << "\n\n\nAfter final XOR\n" << std::endl;
 	print_inner_state(cs);
@@ -114,6 +115,7 @@ void rabbit_load_iv(rabbit_state *cs, uint8_t iv[8])
 	cs->X[5] = cs->MASTER_X[5];
 	cs->X[6] = cs->MASTER_X[6];
 	cs->X[7] = cs->MASTER_X[7];
+	cs->carry = cs->MASTER_carry;
 
 	uint16_t *iv_u16 = (uint16_t*)iv; 
 	uint32_t *iv_u32 = (uint32_t*)iv;
diff --git a/StreamCiphers/Rabbit/rabbit.h b/StreamCiphers/Rabbit/rabbit.h
index 57f0157..690492d 100644
--- a/StreamCiphers/Rabbit/rabbit.h
+++ b/StreamCiphers/Rabbit/rabbit.h
@@ -35,6 +35,7 @@ struct rabbit_state{
 	uint32_t X[8];
 	uint32_t C[8];
 	uint8_t carry;
+	uint8_t MASTER_carry;
 };
 
 inline uint32_t g(uint32_t u, uint32_t v)
-- 
2.43.0


From ef7b209455775a2a8b34f97a0bb9d1103479a9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:48:56 +0000
Subject: [PATCH 10/14] fix: Serpent pads short keys with a one bit in the
 least significant position

---
 BlockCiphers/Serpent/serpent.cpp    | 7 ++++---
 StreamCiphers/Sosemanuk/serpent.cpp | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/BlockCiphers/Serpent/serpent.cpp b/BlockCiphers/Serpent/serpent.cpp
index 6e14406..2e23805 100644
--- a/BlockCiphers/Serpent/serpent.cpp
+++ b/BlockCiphers/Serpent/serpent.cpp
@@ -130,9 +130,10 @@ void serpent_key_schedule(serpent_state *ctx, uint8_t *input_key, int size)
 	if ( size < 32 )
 	{
 				// Appending a 1-bit followed by 0-bits is
-		// similar to appending 0x80 hex:
-		// 0x80  = 1000 0000
-		key[size] = 0x80; size++;
+		// similar to appending 0x01 hex, since the
+		// least significant bit comes first:
+		// 0x01  = 0000 0001
+		key[size] = 0x01; size++;
 		for ( ; size < 32; size++)
 		{
 			key[size] = 0x00;
diff --git a/StreamCiphers/Sosemanuk/serpent.cpp b/StreamCiphers/Sosemanuk/serpent.cpp
index 6e14406..2e23805 100644
--- a/StreamCiphers/Sosemanuk/serpent.cpp
+++ b/StreamCiphers/Sosemanuk/serpent.cpp
@@ -130,9 +130,10 @@ void serpent_key_schedule(serpent_state *ctx, uint8_t *input_key, int size)
 	if ( size < 32 )
 	{
 				// Appending a 1-bit followed by 0-bits is
-		// similar to appending 0x80 hex:
-		// 0x80  = 1000 0000
-		key[size] = 0x80; size++;
+		// similar to appending 0x01 hex, since the
+		// least significant bit comes first:
+		// 0x01  = 0000 0001
+		key[size] = 0x01; size++;
 		for ( ; size < 32; size++)
 		{
 			key[size] = 0x00;
-- 
2.43.0


From 682a7d4310d62c23355a294971445c8d2a2950d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:48:56 +0000
Subject: [PATCH 11/14] fix: Sosemanuk FSM update uses s[t+1]^s[t+8] and the
 previous R1

---
 StreamCiphers/Sosemanuk/sosemanuk.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/StreamCiphers/Sosemanuk/sosemanuk.h b/StreamCiphers/Sosemanuk/sosemanuk.h
index 7bc3b21..b0432f8 100644
--- a/StreamCiphers/Sosemanuk/sosemanuk.h
+++ b/StreamCiphers/Sosemanuk/sosemanuk.h
@@ -51,8 +51,9 @@ inline uint32_t Trans(uint32_t R1)
 inline void sosemanuk_fsm_update(sosemanuk_state *cs, uint32_t *f_buf)
 {
 	// Update fsm
-	cs->R1 = cs->R2 + mux(cs->R1, cs->s[1], (cs->s[8] ^ cs->s[9]));
-	cs->R2 = Trans(cs->R1);
+	uint32_t old_R1 = cs->R1;
+	cs->R1 = cs->R2 + mux(old_R1, cs->s[1], (cs->s[1] ^ cs->s[8]));
+	cs->R2 = Trans(old_R1);
 	*f_buf = (cs->s[9] + cs->R1) ^ cs->R2;
 	
 }
-- 
2.43.0


From a4b4b6f72907155766b1700543402f6e450e24a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:22:13 +0000
Subject: [PATCH 12/14] fix: every DES round used the first subkey

---
 Legacy/DES/des.cpp | 5 +++--
 Legacy/DES/des.h   | 3 +--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/Legacy/DES/des.cpp b/Legacy/DES/des.cpp
index 396b597..5e1af69 100644
--- a/Legacy/DES/des.cpp
+++ b/Legacy/DES/des.cpp
@@ -92,10 +92,11 @@ void des_ecb_block(des_state *cs, u32 *output, u32 *input)
 
 	DES_IP(&X, &Y, &T);
 
+	// Each round uses its own pair of subkey words
 	for (int i = 0; i < 8; i++)
 	{
-		DES_ROUND(cs, &Y, &X, &T);
-		DES_ROUND(cs, &X, &Y, &T);
+		DES_ROUND(cs->rk + 4*i, &Y, &X, &T);
+		DES_ROUND(cs->rk + 4*i + 2, &X, &Y, &T);
 	}
 
 	DES_FP(&Y, &X, &T);
diff --git a/Legacy/DES/des.h b/Legacy/DES/des.h
index f55826b..e8f70d7 100644
--- a/Legacy/DES/des.h
+++ b/Legacy/DES/des.h
@@ -246,9 +246,8 @@ inline void DES_IP(u32 *X, u32 *Y, u32 *T)
 	*X = ((*X << 1) | (*X >> 31)) & 0xffffffff;
 }
 
-inline void DES_ROUND(des_state *cs, u32 *X, u32 *Y, u32 *T)
+inline void DES_ROUND(const u32 *rk_ptr, u32 *X, u32 *Y, u32 *T)
 {
-	u32 *rk_ptr = cs->rk;
 	*T = *rk_ptr ^ *X; rk_ptr++;
     	*Y ^= Sbox8[ (*T      ) & 0x3f ] ^
          Sbox6[ (*T >>  8) & 0x3f ] ^
-- 
2.43.0


From 7365ba815e951c5fba0e409ce5db8dfa218452ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:22:13 +0000
Subject: [PATCH 13/14] fix: the DES-CTR counter never entered the encrypted
 block

---
 Legacy/DES/des.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/Legacy/DES/des.cpp b/Legacy/DES/des.cpp
index 5e1af69..4bca5f1 100644
--- a/Legacy/DES/des.cpp
+++ b/Legacy/DES/des.cpp
@@ -117,10 +117,10 @@ void des_process_packet_ecb(des_state *cs, u32 *output, u32 *input, u64 size)
 void des_process_packet_ctr(des_state *cs, u32 *output, u32 *input, u32 *nonce, u64 size)
 {
 	// We always assume that the size divides the block size.
-	// Furthermore, we use a 96 bit nonce and a 32 bit counter.
-	u32 iv[4];
-	std::memcpy(iv, nonce, 12);
-	iv[3] = 0;
+	// Furthermore, the counter block is the first 64 bits of the
+	// nonce, and it is incremented for each block.
+	u32 iv[2];
+	std::memcpy(iv, nonce, 8);
 	while (size > 0)
 	{
 		u32 keystream[2] = {0};
@@ -132,6 +132,7 @@ void des_process_packet_ctr(des_state *cs, u32 *output, u32 *input, u32 *nonce,
 		*output = *input ^ keystream[1];
 		output++; input++;
 
-		iv[3] += 1; size -= 8;
+		iv[1] += 1; if (iv[1] == 0) iv[0] += 1;
+		size -= 8;
 	}
 }
-- 
2.43.0


From 8ddb4dc2f338d9ad16c0262591320ff60528c82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:22:54 +0000
Subject: [PATCH 14/14] fix: the label mask of labeled HE depended on
 uninitialised stack bytes

---
 .../Labeled_homomorphic_encryption/LabeledHE/labeled_he.cpp      | 1 +
 .../Labeled_homomorphic_encryption/muLabeledHE/mu_labeled_he.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/AsymmetricCryptography/Labeled_homomorphic_encryption/LabeledHE/labeled_he.cpp b/AsymmetricCryptography/Labeled_homomorphic_encryption/LabeledHE/labeled_he.cpp
index 7e3ed72..0215f39 100644
--- a/AsymmetricCryptography/Labeled_homomorphic_encryption/LabeledHE/labeled_he.cpp
+++ b/AsymmetricCryptography/Labeled_homomorphic_encryption/LabeledHE/labeled_he.cpp
@@ -54,6 +54,7 @@ void he_encrypt(
 	
 	// Declare array
 	uint8_t keystream[msgsize/8];
+	for (uint32_t i = 0; i < msgsize/8; i++) keystream[i] = 0;
 	
 	// Load label into the array
 	size_t size = (mpz_sizeinbase(label, 2) + CHAR_BIT-1)/CHAR_BIT;
diff --git a/AsymmetricCryptography/Labeled_homomorphic_encryption/muLabeledHE/mu_labeled_he.cpp b/AsymmetricCryptography/Labeled_homomorphic_encryption/muLabeledHE/mu_labeled_he.cpp
index 1919d2a..14b3a00 100644
--- a/AsymmetricCryptography/Labeled_homomorphic_encryption/muLabeledHE/mu_labeled_he.cpp
+++ b/AsymmetricCryptography/Labeled_homomorphic_encryption/muLabeledHE/mu_labeled_he.cpp
@@ -62,6 +62,7 @@ void mu_he_encrypt(
 	
 	// Declare array
 	uint8_t keystream[msgsize/8];
+	for (uint32_t i = 0; i < msgsize/8; i++) keystream[i] = 0;
 
 	// Load label into the array
         size_t size = (mpz_sizeinbase(label, 2) + CHAR_BIT-1)/CHAR_BIT;
-- 
2.43.0

