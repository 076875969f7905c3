From d67dba69083c7a49425e4937f08672123dd24980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:16 +0000
Subject: [PATCH 01/45] fix: flip the sign of a big number with ! instead of
 negating the flag

The sign flag is 0 or 1, so -sign left positive numbers positive and turned 1 into -1.
BnMulInt/BnDivInt by a negative word and subtraction through zero returned the wrong sign.
---
 src/com/bignumber.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index 48fffad..18b5749 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -974,7 +974,7 @@ int BnMulInt(struct RaBigNumber *bn, bn_int_t multiplier)
 	uint64_t cw;
 
 	if (multiplier < 0) {
-		bn->sign = -bn->sign;
+		bn->sign = !bn->sign;
 		multiplier = -multiplier;
 	}
 	val.high = 0;
@@ -1001,7 +1001,7 @@ int BnMulInt(struct RaBigNumber *bn, bn_int_t multiplier)
 	int i;
 
 	if (multiplier < 0) {
-		bn->sign = -bn->sign;
+		bn->sign = !bn->sign;
 		multiplier = -multiplier;
 	}
 	val = 0;
@@ -1081,7 +1081,7 @@ int BnDivInt(struct RaBigNumber *bn, bn_int_t divisor, /*out*/bn_uint_t *remaind
 		return RA_ERR_DIVIDED_BY_ZERO;
 	}
 	if (divisor < 0) {
-		bn->sign = -bn->sign;
+		bn->sign = !bn->sign;
 		divisor = -divisor;
 	}
 
@@ -1121,7 +1121,7 @@ int BnDivInt(struct RaBigNumber *bn, bn_int_t divisor, /*out*/bn_uint_t *remaind
 		return RA_ERR_DIVIDED_BY_ZERO;
 	}
 	if (divisor < 0) {
-		bn->sign = -bn->sign;
+		bn->sign = !bn->sign;
 		divisor = -divisor;
 	}
 	val = 0;
@@ -1961,7 +1961,7 @@ static int _BnSubUInt(struct RaBigNumber *a, bn_uint_t val)
 
 	if (al == 1 && (*ad) < val) {
 		*ad = val - (*ad);
-		a->sign = -a->sign;
+		a->sign = !a->sign;
 		return RA_ERR_SUCCESS;
 	}
 
-- 
2.43.0


From 5116ab60f714836e059446a2a924bcd6786fd603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:11 +0000
Subject: [PATCH 02/45] fix: divide by a word when the partial dividend equals
 the divisor

BnDivInt, BnDivUInt and BnModUInt skipped the quotient digit when the partial
dividend was equal to the divisor, so 5/5 was 0 remainder 5.
---
 src/com/bignumber.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index 18b5749..f940900 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -1092,7 +1092,7 @@ int BnDivInt(struct RaBigNumber *bn, bn_int_t divisor, /*out*/bn_uint_t *remaind
 		val.high = val.low;
 		val.low = bn->data[i];
 
-		if (val.high != 0 || val.low > (bn_uint_t)divisor) {
+		if (val.high != 0 || val.low >= (bn_uint_t)divisor) {
 			if (length == 0)
 				length = i + 1;
 			bn->data[i] = _BnDiv128(val, (bn_uint_t)divisor, &val.low);
@@ -1127,7 +1127,7 @@ int BnDivInt(struct RaBigNumber *bn, bn_int_t divisor, /*out*/bn_uint_t *remaind
 	val = 0;
 	for (i = bn->length - 1; i >= 0; i--) {
 		val = (val << 32) + bn->data[i];
-		if (val > (uint32_t)divisor) {
+		if (val >= (uint32_t)divisor) {
 			if (length == 0)
 				length = i + 1;
 			bn->data[i] = (uint32_t)(val / (uint32_t)divisor);
@@ -1170,7 +1170,7 @@ int BnDivUInt(struct RaBigNumber *bn, bn_uint_t divisor, /*out*/bn_uint_t *remai
 		val.high = val.low;
 		val.low = bn->data[i];
 
-		if (val.high != 0 || val.low > (bn_uint_t)divisor) {
+		if (val.high != 0 || val.low >= (bn_uint_t)divisor) {
 			if (length == 0)
 				length = i + 1;
 			bn->data[i] = _BnDiv128(val, (bn_uint_t)divisor, &val.low);
@@ -1201,7 +1201,7 @@ int BnDivUInt(struct RaBigNumber *bn, bn_uint_t divisor, /*out*/bn_uint_t *remai
 	val = 0;
 	for (i = bn->length - 1; i >= 0; i--) {
 		val = (val << 32) + bn->data[i];
-		if (val > (uint32_t)divisor) {
+		if (val >= (uint32_t)divisor) {
 			if (length == 0)
 				length = i + 1;
 			bn->data[i] = (uint32_t)(val / (uint32_t)divisor);
@@ -1243,7 +1243,7 @@ int BnModUInt(struct RaBigNumber *bn, bn_uint_t divisor, /*out*/bn_uint_t *remai
 		val.high = val.low;
 		val.low = bn->data[i];
 
-		if (val.high > 0 || val.low > divisor) {
+		if (val.high > 0 || val.low >= divisor) {
 			if (length == 0)
 				length = i + 1;
 			_BnDiv128(val, divisor, &val.low);
@@ -1263,7 +1263,7 @@ int BnModUInt(struct RaBigNumber *bn, bn_uint_t divisor, /*out*/bn_uint_t *remai
 	val = 0;
 	for (i = bn->length - 1; i >= 0; i--) {
 		val = (val << 32) + bn->data[i];
-		if (val > divisor) {
+		if (val >= divisor) {
 			if (length == 0)
 				length = i + 1;
 			val %= (uint32_t)divisor;
-- 
2.43.0


From cbca3b61b796919d960335f06716c0cf3573d154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:33 +0000
Subject: [PATCH 03/45] fix: take the carry of BnDouble before overwriting the
 word

With r == a the carry was computed from the doubled word.
---
 src/com/bignumber.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index f940900..7a4b533 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -361,6 +361,7 @@ int BnDouble(struct RaBigNumber *r, struct RaBigNumber *a)
 {
 	int i;
 	int c;
+	int s;
 	bn_uint_t *rd;
 	bn_uint_t *ad;
 
@@ -374,8 +375,9 @@ int BnDouble(struct RaBigNumber *r, struct RaBigNumber *a)
 	ad = &a->data[0];
 	r->length = a->length;
 	for (i = 0; i < a->length; i++) {
+		s = (int)(((*ad) >> (BN_WORD_BIT - 1)) & 1);	// r can be a
 		*rd = ((*ad) << 1) + c;
-		c = (int)(((*ad) >> (BN_WORD_BIT - 1)) & 1);
+		c = s;
 		ad++;
 		rd++;
 	}
-- 
2.43.0


From c4136721e45beae54904e55442f7cd953aab3f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:57 +0000
Subject: [PATCH 04/45] fix: do not produce negative zero or leading zero words

A zero result kept the sign of an operand (a - a, a % b, -1 + 1, 0 * -1, ...) and
multiplying by zero kept the old length, so such results compared unequal to zero.
---
 src/com/bignumber.c | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index 7a4b533..c67266d 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -15,6 +15,7 @@ static int _BnCmp(struct RaBigNumber *a, struct RaBigNumber *b);
 //static int _BnDoubleR(struct RaBigNumber *r);
 static int _BnAddUInt(struct RaBigNumber *a, bn_uint_t val);
 static int _BnSubUInt(struct RaBigNumber *a, bn_uint_t val);
+static void _BnNormalize(struct RaBigNumber *bn);
 static int _BnGetMSBPos32(uint32_t val);
 
 #if BN_WORD_BYTE == 8
@@ -332,6 +333,8 @@ int BnAdd(struct RaBigNumber *r, struct RaBigNumber *a, struct RaBigNumber *b)
 		ret = _BnAdd(r, a, b);
 		r->sign = a->sign;
 	}
+	if (ret == RA_ERR_SUCCESS)
+		_BnNormalize(r);
 	return ret;
 }
 
@@ -353,6 +356,8 @@ int BnSub(struct RaBigNumber *r, struct RaBigNumber *a, struct RaBigNumber *b)
 			r->sign = !a->sign;
 		}
 	}
+	if (ret == RA_ERR_SUCCESS)
+		_BnNormalize(r);
 	return ret;
 }
 
@@ -709,6 +714,7 @@ int BnMod(struct RaBigNumber *r, struct RaBigNumber *a, struct RaBigNumber *b)
 
 	BnShiftR(r, (uint32_t)bit);
 	r->sign = a->sign;
+	_BnNormalize(r);
 
 	BnFree(aa);
 	BnFree(bb);
@@ -901,6 +907,8 @@ int BnDiv(struct RaBigNumber *q, struct RaBigNumber *r, struct RaBigNumber *a, s
 	}
 	else {
 		BnSet(r, rr);
+		_BnNormalize(q);
+		_BnNormalize(r);
 	}
 
 	BnFree(aa);
@@ -998,6 +1006,7 @@ int BnMulInt(struct RaBigNumber *bn, bn_int_t multiplier)
 		bn->data[bn->length] = val.high;
 		bn->length++;
 	}
+	_BnNormalize(bn);
 #else
 	uint64_t val;
 	int i;
@@ -1020,6 +1029,7 @@ int BnMulInt(struct RaBigNumber *bn, bn_int_t multiplier)
 		bn->data[bn->length] = (uint32_t)val;
 		bn->length++;
 	}
+	_BnNormalize(bn);
 #endif
 	return RA_ERR_SUCCESS;
 }
@@ -1049,6 +1059,7 @@ int BnMulUInt(struct RaBigNumber *bn, bn_uint_t multiplier)
 		bn->data[bn->length] = val.high;
 		bn->length++;
 	}
+	_BnNormalize(bn);
 #else
 	uint64_t val;
 	int i;
@@ -1067,6 +1078,7 @@ int BnMulUInt(struct RaBigNumber *bn, bn_uint_t multiplier)
 		bn->data[bn->length] = (uint32_t)val;
 		bn->length++;
 	}
+	_BnNormalize(bn);
 #endif
 	return RA_ERR_SUCCESS;
 }
@@ -1106,6 +1118,7 @@ int BnDivInt(struct RaBigNumber *bn, bn_int_t divisor, /*out*/bn_uint_t *remaind
 	if (length == 0) {
 		bn->length = 1;
 		bn->data[0] = 0;
+		bn->sign = 0;
 	}
 	else {
 		bn->length = length;
@@ -1142,6 +1155,7 @@ int BnDivInt(struct RaBigNumber *bn, bn_int_t divisor, /*out*/bn_uint_t *remaind
 	if (length == 0) {
 		bn->length = 1;
 		bn->data[0] = 0;
+		bn->sign = 0;
 	}
 	else {
 		bn->length = length;
@@ -1184,6 +1198,7 @@ int BnDivUInt(struct RaBigNumber *bn, bn_uint_t divisor, /*out*/bn_uint_t *remai
 	if (length == 0) {
 		bn->length = 1;
 		bn->data[0] = 0;
+		bn->sign = 0;
 	}
 	else {
 		bn->length = length;
@@ -1216,6 +1231,7 @@ int BnDivUInt(struct RaBigNumber *bn, bn_uint_t divisor, /*out*/bn_uint_t *remai
 	if (length == 0) {
 		bn->length = 1;
 		bn->data[0] = 0;
+		bn->sign = 0;
 	}
 	else {
 		bn->length = length;
@@ -1981,9 +1997,19 @@ static int _BnSubUInt(struct RaBigNumber *a, bn_uint_t val)
 	if (i == al && a->length > 1 && (*--ad) == 0) {
 		a->length--;
 	}
+	_BnNormalize(a);
 	return RA_ERR_SUCCESS;
 }
 
+// no leading zero words, no negative zero
+static void _BnNormalize(struct RaBigNumber *bn)
+{
+	while (bn->length > 1 && bn->data[bn->length - 1] == 0)
+		bn->length--;
+	if (BN_ISZERO(bn))
+		bn->sign = 0;
+}
+
 
 #if BN_WORD_BYTE == 8
 #if defined(_MSC_VER) && defined(_M_X64)
@@ -2223,6 +2249,7 @@ bn_uint_t _BnGetUInt(struct RaBigNumber *bn)
 void _BnInvert(struct RaBigNumber *bn)
 {
 	bn->sign = !bn->sign;
+	_BnNormalize(bn);
 }
 
 //////////////////////////////////////////
-- 
2.43.0


From 2ffecabfa91f77ae9413fc5bcee800235dfa763b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:10 +0000
Subject: [PATCH 05/45] fix: shift zero, by whole numbers and by huge distances
 correctly

BnShiftR by at least the length of the number left a number of zero or one stale
word, BnShiftL of zero grew it, and distances near 2^32 wrapped around in BnShiftL.
---
 src/com/bignumber.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index c67266d..c026103 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -1304,15 +1304,15 @@ int BnShiftL(struct RaBigNumber *bn, uint32_t bit)
 	bn_uint_t val;
 	bn_uint_t val_prev;
 
-	if (bit == 0) {
+	if (bit == 0 || BN_ISZERO(bn)) {
 		return RA_ERR_SUCCESS;
 	}
 
-	word = (bit + BN_WORD_BIT - 1) / BN_WORD_BIT;
+	word = bit / BN_WORD_BIT + (bit % BN_WORD_BIT != 0);
 
 	if (bn->max_length < bn->length + word) {
 		// calculate the accurate required word length
-		word = (BnGetBitLength(bn) + bit + BN_WORD_BIT - 1) / BN_WORD_BIT;
+		word = (int)(((uint64_t)BnGetBitLength(bn) + bit + BN_WORD_BIT - 1) / BN_WORD_BIT);
 		if (bn->max_length < word) {
 			assert(0);
 			return RA_ERR_NUMBER_SIZE;
@@ -1351,8 +1351,7 @@ int BnShiftL(struct RaBigNumber *bn, uint32_t bit)
 		*dest-- = 0;
 	}
 	bn->length += word;
-	if (bn->length > 1 && bn->data[bn->length - 1] == 0)
-		bn->length--;
+	_BnNormalize(bn);
 
 	return RA_ERR_SUCCESS;
 }
@@ -1373,6 +1372,11 @@ int BnShiftR(struct RaBigNumber *bn, uint32_t bit)
 	word = bit / BN_WORD_BIT;
 	bit %= BN_WORD_BIT;
 
+	if (word >= bn->length) {
+		BnSetUInt(bn, 0);
+		return RA_ERR_SUCCESS;
+	}
+
 	dest = &bn->data[0];
 	src = &bn->data[word];
 	bn_end = bn->data + bn->length;
@@ -1398,8 +1402,7 @@ int BnShiftR(struct RaBigNumber *bn, uint32_t bit)
 	}
 
 	bn->length = (int)(intptr_t)(dest - bn->data);
-	if ( bn->length > 1 && *(--dest) == 0 )
-		bn->length--;
+	_BnNormalize(bn);
 
 	return RA_ERR_SUCCESS;
 }
-- 
2.43.0


From 07f5f5634a454d5140cd38221e7fa8a2663e1a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:55 +0000
Subject: [PATCH 06/45] fix: BnCmpUInt of a negative number whose low word is
 zero

-2^64 compared equal to every word.
---
 src/com/bignumber.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index c026103..65c91b3 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -310,7 +310,7 @@ int BnCmpUInt(struct RaBigNumber *a, bn_uint_t val)
 		return 0;
 	}
 	else {
-		if (a->data[0] == 0)
+		if (BN_ISZERO(a) && val == 0)
 			return 0;
 		return -1;
 	}
-- 
2.43.0


From 1af55bb8d0033de05522934a75133afaed066800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:37 +0000
Subject: [PATCH 07/45] fix: do not negate the most negative integer

Negating it in signed arithmetic is undefined; compute the magnitude unsigned.
---
 src/com/bignumber.c | 43 ++++++++++++++++++++++++-------------------
 1 file changed, 24 insertions(+), 19 deletions(-)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index 65c91b3..a8d5338 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -74,45 +74,51 @@ void BnClearFree(struct RaBigNumber* bn)
 
 void BnSetInt(struct RaBigNumber *bn, bn_int_t value)
 {
+	bn_uint_t abs = (bn_uint_t)value;
+
 	if (value < 0) {
 		bn->sign = 1;
-		value = -value;
+		abs = 0 - abs;
 	}
 	else {
 		bn->sign = 0;
 	}
-	bn->data[0] = (bn_uint_t)value;
+	bn->data[0] = abs;
 	bn->length = 1;
 }
 
 void BnSetInt32(struct RaBigNumber *bn, int32_t value)
 {
+	uint32_t abs = (uint32_t)value;
+
 	if (value < 0) {
 		bn->sign = 1;
-		value = -value;
+		abs = 0 - abs;
 	}
 	else {
 		bn->sign = 0;
 	}
-	bn->data[0] = (uint32_t)value;
+	bn->data[0] = abs;
 	bn->length = 1;
 }
 
 void BnSetInt64(struct RaBigNumber *bn, int64_t value)
 {
+	uint64_t abs = (uint64_t)value;
+
 	if (value < 0) {
 		bn->sign = 1;
-		value = -value;
+		abs = 0 - abs;
 	}
 	else {
 		bn->sign = 0;
 	}
 #if BN_WORD_BYTE == 8
-	bn->data[0] = (uint64_t)value;
+	bn->data[0] = abs;
 	bn->length = 1;
 #else
-	bn->data[0] = (uint32_t)value;
-	bn->data[1] = (uint32_t)(value >> 32);
+	bn->data[0] = (uint32_t)abs;
+	bn->data[1] = (uint32_t)(abs >> 32);
 	bn->length = 1 + (bn->data[1] != 0);
 #endif
 }
@@ -289,10 +295,9 @@ int BnCmpInt(struct RaBigNumber *a, bn_int_t val)
 	else {
 		if (a->length > 1 || val > 0)
 			return -1;
-		val = -val;
-		if (a->data[0] > (bn_uint_t)val)
+		if (a->data[0] > 0 - (bn_uint_t)val)
 			return -1;
-		else if (a->data[0] < (bn_uint_t)val)
+		else if (a->data[0] < 0 - (bn_uint_t)val)
 			return 1;
 		return 0;
 	}
@@ -931,9 +936,9 @@ int BnAddInt(struct RaBigNumber *bn, bn_int_t val)
 	}
 	else {
 		if (bn->sign == 0)
-			ret = _BnSubUInt(bn, (bn_uint_t)-val);
+			ret = _BnSubUInt(bn, 0 - (bn_uint_t)val);
 		else
-			ret = _BnAddUInt(bn, (bn_uint_t)-val);
+			ret = _BnAddUInt(bn, 0 - (bn_uint_t)val);
 	}
 	return ret;
 }
@@ -959,9 +964,9 @@ int BnSubInt(struct RaBigNumber *bn, bn_int_t val)
 	}
 	else {
 		if (bn->sign == 0)
-			ret = _BnAddUInt(bn, (bn_uint_t)-val);
+			ret = _BnAddUInt(bn, 0 - (bn_uint_t)val);
 		else
-			ret = _BnSubUInt(bn, (bn_uint_t)-val);
+			ret = _BnSubUInt(bn, 0 - (bn_uint_t)val);
 	}
 	return ret;
 }
@@ -985,7 +990,7 @@ int BnMulInt(struct RaBigNumber *bn, bn_int_t multiplier)
 
 	if (multiplier < 0) {
 		bn->sign = !bn->sign;
-		multiplier = -multiplier;
+		multiplier = (bn_int_t)(0 - (bn_uint_t)multiplier);
 	}
 	val.high = 0;
 	val.low = 0;
@@ -1013,7 +1018,7 @@ int BnMulInt(struct RaBigNumber *bn, bn_int_t multiplier)
 
 	if (multiplier < 0) {
 		bn->sign = !bn->sign;
-		multiplier = -multiplier;
+		multiplier = (bn_int_t)(0 - (bn_uint_t)multiplier);
 	}
 	val = 0;
 	for (i = 0; i < bn->length; i++) {
@@ -1096,7 +1101,7 @@ int BnDivInt(struct RaBigNumber *bn, bn_int_t divisor, /*out*/bn_uint_t *remaind
 	}
 	if (divisor < 0) {
 		bn->sign = !bn->sign;
-		divisor = -divisor;
+		divisor = (bn_int_t)(0 - (bn_uint_t)divisor);
 	}
 
 	val.high = 0;
@@ -1137,7 +1142,7 @@ int BnDivInt(struct RaBigNumber *bn, bn_int_t divisor, /*out*/bn_uint_t *remaind
 	}
 	if (divisor < 0) {
 		bn->sign = !bn->sign;
-		divisor = -divisor;
+		divisor = (bn_int_t)(0 - (bn_uint_t)divisor);
 	}
 	val = 0;
 	for (i = bn->length - 1; i >= 0; i--) {
-- 
2.43.0


From 1f67bfbebadc0639e7218759df4bfacf77b14a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:44 +0000
Subject: [PATCH 08/45] fix: check the room for the longer operand when adding
 magnitudes

_BnAdd only looked at the first operand and _BnAddR did not check at all.
---
 src/com/bignumber.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index a8d5338..7d64ef2 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -1638,7 +1638,7 @@ static int _BnAdd(struct RaBigNumber *r, struct RaBigNumber *a, struct RaBigNumb
 	int al;
 	int bl;
 
-	if (r->max_length < a->length) {
+	if (r->max_length < a->length || r->max_length < b->length) {
 		assert(0);
 		return RA_ERR_NUMBER_SIZE;
 	}
@@ -1790,8 +1790,13 @@ int _BnAddR(struct RaBigNumber *a, struct RaBigNumber *b)
 	bl = b->length;
 
 	if (a->length < b->length) {
+		if (a->max_length < b->length) {
+			assert(0);
+			return RA_ERR_NUMBER_SIZE;
+		}
 		memset(a->data + a->length, 0, sizeof(bn_uint_t) * ((size_t)b->length - a->length));
 		a->length = b->length;
+		al = b->length;
 	}
 	c = 0;
 	for (i = 0; i < bl; i++) {
-- 
2.43.0


From ef9987b1f5c90c9e2c528bc991fa10169c2a1e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:49 +0000
Subject: [PATCH 09/45] fix: BnMod needs one more word than the divisor while
 it works

It reduced in place in r, so a remainder with exactly the divisor's length (all that
is required of it) was overrun by one word and the shift that makes room failed.
---
 src/com/bignumber.c | 47 +++++++++++++++++++++++++--------------------
 1 file changed, 26 insertions(+), 21 deletions(-)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index 7d64ef2..fd8b226 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -587,6 +587,7 @@ int BnSqr(struct RaBigNumber *r, struct RaBigNumber *a)
 // r = a % b
 int BnMod(struct RaBigNumber *r, struct RaBigNumber *a, struct RaBigNumber *b)
 {
+	struct RaBigNumber *rr;
 	struct RaBigNumber *aa;		// a << n
 	struct RaBigNumber *bb;		// b << n
 	struct RaBigNumber *bq;		// b * q
@@ -618,11 +619,13 @@ int BnMod(struct RaBigNumber *r, struct RaBigNumber *a, struct RaBigNumber *b)
 	aa = BnNewW(a->length + 1);		// a << n
 	bb = BnNewW(b->length + 1);		// b << n
 	bq = BnNewW(b->length + 1);		// b * qu(32bit)
+	rr = BnNewW(b->length + 1);
 
-	if (aa == NULL || bb == NULL || bq == NULL) {
+	if (aa == NULL || bb == NULL || bq == NULL || rr == NULL) {
 		BN_SAFEFREE(aa);
 		BN_SAFEFREE(bb);
 		BN_SAFEFREE(bq);
+		BN_SAFEFREE(rr);
 		return RA_ERR_OUT_OF_MEMORY;
 	}
 
@@ -634,33 +637,33 @@ int BnMod(struct RaBigNumber *r, struct RaBigNumber *a, struct RaBigNumber *b)
 	BnShiftL(aa, (uint32_t)bit);
 	BnShiftL(bb, (uint32_t)bit);
 
-	// copy first bb->length-1 of aa->data to r
-	// this reduce loop count until r gets greater than bb
-	BnSetInt(r, 0);
+	// copy first bb->length-1 of aa->data to rr
+	// this reduce loop count until rr gets greater than bb
+	BnSetInt(rr, 0);
 	if (b->length > 1) {
-		memcpy(r->data, aa->data + aa->length - bb->length + 1, sizeof(bn_uint_t) * ((size_t)bb->length - 1));
-		r->data[bb->length] = 0;
-		r->length = bb->length - 1;
+		memcpy(rr->data, aa->data + aa->length - bb->length + 1, sizeof(bn_uint_t) * ((size_t)bb->length - 1));
+		rr->data[bb->length] = 0;
+		rr->length = bb->length - 1;
 	}
 
 	bu = bb->data[bb->length - 1];		// highst word of bb
 	ad = &aa->data[aa->length - bb->length];
-	rd = &r->data[bb->length - 1];
+	rd = &rr->data[bb->length - 1];
 
 #if BN_WORD_BYTE == 8
 	ru.high = 0;
 	ru.low = 0;
 
 	while (ad >= aa->data) {
-		BnShiftL(r, 64);
-		r->data[0] = (*ad);
+		BnShiftL(rr, 64);
+		rr->data[0] = (*ad);
 
 		// check the length
-		if (r->length > b->length) {
+		if (rr->length > b->length) {
 			ru.low = *rd;
 			ru.high = *(rd + 1);
 		}
-		else if (r->length == b->length) {
+		else if (rr->length == b->length) {
 			ru.low = *rd;
 			ru.high = 0;
 		}
@@ -674,11 +677,11 @@ int BnMod(struct RaBigNumber *r, struct RaBigNumber *a, struct RaBigNumber *b)
 
 			BnSet(bq, bb);
 			BnMulUInt(bq, qu);		// bq = bb * qu
-			while (_BnCmp(r, bq) < 0) {
+			while (_BnCmp(rr, bq) < 0) {
 				_BnSubR(bq, bb);
 				qu--;
 			}
-			_BnSubR(r, bq);		// rr -= bb * qu
+			_BnSubR(rr, bq);		// rr -= bb * qu
 		}
 
 		ad--;
@@ -687,13 +690,13 @@ int BnMod(struct RaBigNumber *r, struct RaBigNumber *a, struct RaBigNumber *b)
 	ru = 0;
 
 	while (ad >= aa->data) {
-		BnShiftL(r, 32);
-		r->data[0] = (*ad);
+		BnShiftL(rr, 32);
+		rr->data[0] = (*ad);
 
 		// check the length
-		if (r->length > b->length)
+		if (rr->length > b->length)
 			ru = ((uint64_t)(*(rd + 1)) << 32) | (*rd);
-		else if (r->length == b->length)
+		else if (rr->length == b->length)
 			ru = *rd;
 		else
 			ru = 0;
@@ -706,24 +709,26 @@ int BnMod(struct RaBigNumber *r, struct RaBigNumber *a, struct RaBigNumber *b)
 
 			BnSet(bq, bb);
 			BnMulUInt(bq, qu);		// bq = bb * qu
-			while (_BnCmp(r, bq) < 0) {
+			while (_BnCmp(rr, bq) < 0) {
 				_BnSubR(bq, bb);
 				qu--;
 			}
-			_BnSubR(r, bq);		// rr -= bb * qu
+			_BnSubR(rr, bq);		// rr -= bb * qu
 		}
 
 		ad--;
 	}
 #endif
 
-	BnShiftR(r, (uint32_t)bit);
+	BnShiftR(rr, (uint32_t)bit);
+	BnSet(r, rr);
 	r->sign = a->sign;
 	_BnNormalize(r);
 
 	BnFree(aa);
 	BnFree(bb);
 	BnFree(bq);
+	BnFree(rr);
 
 	return RA_ERR_SUCCESS;
 }
-- 
2.43.0


From 3030f559ed715eed51713a528515ad7b14f2076a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:28 +0000
Subject: [PATCH 10/45] fix: BnDiv floors short dividends too and reports a
 quotient that does not fit

A dividend with fewer words than a divisor of the other sign was not floored as all
others are, rounding the quotient down could fail unnoticed, and the 32-bit quotient
estimate compared a stale word above the remainder, then corrected 2^32 times.
---
 src/com/bignumber.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index fd8b226..68f18ef 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -735,6 +735,7 @@ int BnMod(struct RaBigNumber *r, struct RaBigNumber *a, struct RaBigNumber *b)
 
 int BnDiv(struct RaBigNumber *q, struct RaBigNumber *r, struct RaBigNumber *a, struct RaBigNumber *b)
 {
+	int result;
 	struct RaBigNumber *rr;
 	struct RaBigNumber *aa;		// a << n
 	struct RaBigNumber *bb;		// b << n
@@ -769,6 +770,10 @@ int BnDiv(struct RaBigNumber *q, struct RaBigNumber *r, struct RaBigNumber *a, s
 	}
 
 	if (a->length < b->length) {
+		if (a->sign != b->sign && !BN_ISZERO(a)) {
+			BnSetInt(q, -1);
+			return BnAdd(r, a, b);
+		}
 		BnSet(r, a);
 		BnSetInt(q, 0);
 		return RA_ERR_SUCCESS;
@@ -872,7 +877,7 @@ int BnDiv(struct RaBigNumber *q, struct RaBigNumber *r, struct RaBigNumber *a, s
 			ru = 0;
 
 		if (ru >= bu) {
-			if  (*(rd + 1) == bu)		// overflow
+			if ((ru >> 32) == bu)		// overflow
 				qu = 0xFFFFFFFF;
 			else
 				qu = (uint32_t)(ru / bu);		// guess the quotient
@@ -912,11 +917,12 @@ int BnDiv(struct RaBigNumber *q, struct RaBigNumber *r, struct RaBigNumber *a, s
 
 	rr->sign = a->sign;
 	if (q->sign && !BN_ISZERO(rr)) {
-		BnSubInt(q, 1);
-		BnAdd(r, rr, b);
+		result = BnSubInt(q, 1);
+		if (result == RA_ERR_SUCCESS)
+			result = BnAdd(r, rr, b);
 	}
 	else {
-		BnSet(r, rr);
+		result = BnSet(r, rr);
 		_BnNormalize(q);
 		_BnNormalize(r);
 	}
@@ -926,7 +932,7 @@ int BnDiv(struct RaBigNumber *q, struct RaBigNumber *r, struct RaBigNumber *a, s
 	BnFree(bq);
 	BnFree(rr);
 
-	return RA_ERR_SUCCESS;
+	return result;
 }
 
 
-- 
2.43.0


From 4ae16fb7ef74d6c7db2a4aaa9366f19cfec3a18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:37 +0000
Subject: [PATCH 11/45] fix: BnToByteArray must not write into a buffer it
 refuses

The leading sign byte was stored before the size check, even into an empty buffer,
and a failed allocation was dereferenced.
---
 src/com/bignumber.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index 68f18ef..ff291c3 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -1533,13 +1533,13 @@ int BnToByteArray(struct RaBigNumber *bn, uint8_t *buffer, int bufferlen)
 	if (bn->sign && !BN_ISZERO(bn)) {
 		struct RaBigNumber *neg;
 		neg = BnClone(bn);
+		if (neg == NULL) {
+			return 0;
+		}
 		BnAddInt(neg, 1);		// neg = ~bn + 1 = ~(bn + 1)
 		word = neg->data[neg->length - 1];
 		bit = _BnGetMSBPos(word);
 		if ((bit % 8) == 7) {			// if most significant bit is set.
-			if (buffer != NULL) {
-				buffer[0] = 0xff;		// negative
-			}
 			offset++;
 		}
 		len = offset + (bit / 8 + 1) + (neg->length - 1) * BN_WORD_BYTE;
@@ -1551,6 +1551,9 @@ int BnToByteArray(struct RaBigNumber *bn, uint8_t *buffer, int bufferlen)
 			BnFree(neg);
 			return 0;
 		}
+		if (offset > 0) {
+			buffer[0] = 0xff;			// negative
+		}
 		bit = (bit / 8) * 8;
 		for (i = neg->length - 1; i >= 0; i--) {
 			word = ~neg->data[i];
@@ -1569,9 +1572,6 @@ int BnToByteArray(struct RaBigNumber *bn, uint8_t *buffer, int bufferlen)
 		word = bn->data[bn->length - 1];
 		bit = _BnGetMSBPos(word);
 		if ((bit % 8) == 7) {			// if most significant bit is set.
-			if (buffer != NULL) {
-				buffer[0] = 0x00;		// positive
-			}
 			offset++;
 		}
 		len = offset + (bit / 8 + 1) + (bn->length - 1) * BN_WORD_BYTE;
@@ -1581,6 +1581,9 @@ int BnToByteArray(struct RaBigNumber *bn, uint8_t *buffer, int bufferlen)
 		if (bufferlen < len) {
 			return 0;
 		}
+		if (offset > 0) {
+			buffer[0] = 0x00;			// positive
+		}
 		bit = (bit / 8) * 8;
 		for (i = bn->length - 1; i >= 0; i--) {
 			word = bn->data[i];
-- 
2.43.0


From 2dbf7b8f4a6b2956e71511c5ad536bb8a2910f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:44 +0000
Subject: [PATCH 12/45] fix: report when a negative byte array needs one word
 more than it has bytes

-2^64 in a number of one 64-bit word of room was reported as success with value zero.
---
 src/com/bignumber.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index ff291c3..1b9ea0e 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -249,7 +249,7 @@ static int _BnSetByteArray(struct RaBigNumber *bn, const uint8_t *data, int len,
 		bn->length--;
 	}
 	if (bn->sign)
-		BnSubInt(bn, 1);
+		return BnSubInt(bn, 1);
 
 	return RA_ERR_SUCCESS;
 }
-- 
2.43.0


From 5b3e505760c4ae1fe9df70f89d6b5209a80ddca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:24 +0000
Subject: [PATCH 13/45] fix: BnModUInt reports a zero divisor as a division by
 zero

---
 src/com/bignumber.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index 1b9ea0e..09c6e2f 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -1269,7 +1269,7 @@ int BnModUInt(struct RaBigNumber *bn, bn_uint_t divisor, /*out*/bn_uint_t *remai
 
 	if (divisor == 0) {
 		assert(0);
-		return RA_ERR_NUMBER_SIZE;
+		return RA_ERR_DIVIDED_BY_ZERO;
 	}
 	val.high = 0;
 	val.low = 0;
@@ -1292,7 +1292,7 @@ int BnModUInt(struct RaBigNumber *bn, bn_uint_t divisor, /*out*/bn_uint_t *remai
 
 	if (divisor == 0) {
 		assert(0);
-		return RA_ERR_NUMBER_SIZE;
+		return RA_ERR_DIVIDED_BY_ZERO;
 	}
 	val = 0;
 	for (i = bn->length - 1; i >= 0; i--) {
-- 
2.43.0


From 9771aeb87c74eeab55c94bf5d4582b70b8c149af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:02 +0000
Subject: [PATCH 14/45] fix: mask the top word of a random number at full word
 width

1 << bit is an int, so for most bit lengths the mask of a 64-bit word was wrong: the
number was too long or its upper bits always zero. Also return the error of the
generator and reset the sign.
---
 src/com/bignumber.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index 09c6e2f..a9b9786 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -1444,6 +1444,7 @@ int BnGetBitLength(struct RaBigNumber *bn)
 
 int BnGenRandom(struct RaBigNumber *bn, int bit, struct RaRandom *rnd)
 {
+	int result;
 	int word;
 
 	if (bit <= 0) {
@@ -1457,13 +1458,16 @@ int BnGenRandom(struct RaBigNumber *bn, int bit, struct RaRandom *rnd)
 		return RA_ERR_NUMBER_SIZE;
 	}
 
-	BnGenRandomByteArray((uint8_t*)bn->data, word * BN_WORD_BYTE, rnd);
+	result = BnGenRandomByteArray((uint8_t*)bn->data, word * BN_WORD_BYTE, rnd);
+	if (result != RA_ERR_SUCCESS)
+		return result;
 
 	bit %= BN_WORD_BIT;
 
 	if (bit > 0) {
-		bn->data[word - 1] &= (1 << bit) - 1;
+		bn->data[word - 1] &= ((bn_uint_t)1 << bit) - 1;
 	}
+	bn->sign = 0;
 	bn->length = word;
 	while (bn->length > 1 && bn->data[bn->length - 1] == 0)
 		bn->length--;
-- 
2.43.0


From 492cf784e73e77f3f5c11a16359ffff391eb1c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:09 +0000
Subject: [PATCH 15/45] fix: report a gcd or coefficient that does not fit its
 number

---
 src/com/gcd.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/com/gcd.c b/src/com/gcd.c
index 684f4eb..7f92e04 100644
--- a/src/com/gcd.c
+++ b/src/com/gcd.c
@@ -45,9 +45,8 @@ int GetGCD(/*out*/struct RaBigNumber *r, struct RaBigNumber *m, struct RaBigNumb
 		if (BnCmpUInt(r2, 0) == 0)
 			break;
 	}
-	BnSet(r, m);
+	result = BnSet(r, m);
 
-	result = RA_ERR_SUCCESS;
 _EXIT:
 	BN_SAFEFREE(r1);
 	BN_SAFEFREE(r2);
@@ -172,24 +171,27 @@ int GetGCDEx(/*out,nullable*/struct RaBigNumber *r, /*out*/struct RaBigNumber *a
 		t_0 = swap;
 	}
 	if (r != NULL) {
-		BnSet(r, m1);
+		result = BnSet(r, m1);
+		if (result != RA_ERR_SUCCESS) goto _EXIT;
 	}
 	if (a != NULL) {
 		// if ( r == 1 ) --> a is inverse of m (m*a mod n = 1)
 		if (isUnsigned && BN_ISNEG(s_1)) {
-			BnAdd(a, s_1, n);
+			result = BnAdd(a, s_1, n);
 		}
 		else {
-			BnSet(a, s_1);		// if ( r == 1 ) --> a is inverse of m (m*a mod n = 1)
+			result = BnSet(a, s_1);		// if ( r == 1 ) --> a is inverse of m (m*a mod n = 1)
 		}
+		if (result != RA_ERR_SUCCESS) goto _EXIT;
 	}
 	if (b != NULL) {
 		if (isUnsigned && BN_ISNEG(t_1)) {
-			BnAdd(b, t_1, m);
+			result = BnAdd(b, t_1, m);
 		}
 		else {
-			BnSet(b, t_1);
+			result = BnSet(b, t_1);
 		}
+		if (result != RA_ERR_SUCCESS) goto _EXIT;
 	}
 
 	result = RA_ERR_SUCCESS;
-- 
2.43.0


From 578394cc4f5c5d12fd8045ccdce8aafa1773110b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:51 +0000
Subject: [PATCH 16/45] fix: RaMontCreate freed uninitialised pointers when out
 of memory

---
 src/com/montexpmod.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/com/montexpmod.c b/src/com/montexpmod.c
index 7d6ad32..fdc8f7a 100644
--- a/src/com/montexpmod.c
+++ b/src/com/montexpmod.c
@@ -75,6 +75,7 @@ int RaMontCreate(struct RaBigNumber *N, /*out*/struct RaMontCtx **montCtx)
 		result = RA_ERR_OUT_OF_MEMORY;
 		goto _EXIT;
 	}
+	memset(ctx, 0, sizeof(struct RaMontCtx));
 
 	B = BnNewW(2);
 	if (B == NULL) {
@@ -124,11 +125,11 @@ _EXIT:
 void RaMontDestroy(struct RaMontCtx* ctx)
 {
 	if (ctx != NULL) {
-		BnClearFree(ctx->N);
-		BnClearFree(ctx->NB);
-		BnClearFree(ctx->BB);
-		BnClearFree(ctx->tmp);
-		BnClearFree(ctx->mul);
+		if (ctx->N != NULL) BnClearFree(ctx->N);
+		if (ctx->NB != NULL) BnClearFree(ctx->NB);
+		if (ctx->BB != NULL) BnClearFree(ctx->BB);
+		if (ctx->tmp != NULL) BnClearFree(ctx->tmp);
+		if (ctx->mul != NULL) BnClearFree(ctx->mul);
 		memset(ctx, 0, sizeof(struct RaMontCtx));
 		free(ctx);
 	}
-- 
2.43.0


From 677eaeec7483521900cfded2dfcf26402e5f0565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:30 +0000
Subject: [PATCH 17/45] fix: refuse an even modulus in RaMontCreate

Montgomery reduction needs an odd modulus; an even one gave wrong results.
---
 src/com/montexpmod.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/com/montexpmod.c b/src/com/montexpmod.c
index fdc8f7a..b893222 100644
--- a/src/com/montexpmod.c
+++ b/src/com/montexpmod.c
@@ -70,6 +70,11 @@ int RaMontCreate(struct RaBigNumber *N, /*out*/struct RaMontCtx **montCtx)
 		result = RA_ERR_DIVIDED_BY_ZERO;
 		goto _EXIT;
 	}
+	// N must be coprime to R
+	if (BN_ISEVEN(N)) {
+		result = RA_ERR_INVALID_PARAM;
+		goto _EXIT;
+	}
 	ctx = (struct RaMontCtx*)malloc(sizeof(struct RaMontCtx));
 	if (ctx == NULL) {
 		result = RA_ERR_OUT_OF_MEMORY;
-- 
2.43.0


From 192647f83ddf44bda2ac3c210839782e0dcf739b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:18 +0000
Subject: [PATCH 18/45] fix: BnMod lost the sign of a dividend that the result
 replaces

---
 src/com/bignumber.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index a9b9786..d695b8f 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -721,8 +721,8 @@ int BnMod(struct RaBigNumber *r, struct RaBigNumber *a, struct RaBigNumber *b)
 #endif
 
 	BnShiftR(rr, (uint32_t)bit);
+	rr->sign = a->sign;		// r can be a
 	BnSet(r, rr);
-	r->sign = a->sign;
 	_BnNormalize(r);
 
 	BnFree(aa);
-- 
2.43.0


From 28d21f4a79b0226942576d5b5e57a796844a1517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:42 +0000
Subject: [PATCH 19/45] fix: RaIsPrimeNumber never returned for 3

There is no base between 1 and n - 1 to choose. Negative numbers are not prime either.
---
 src/com/prime.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/com/prime.c b/src/com/prime.c
index 0f00fec..719ab88 100644
--- a/src/com/prime.c
+++ b/src/com/prime.c
@@ -286,8 +286,9 @@ static int CheckMillerRabin(struct RaBigNumber *bn, int count, struct RaRandom *
 	bn_uint_t data;
 	struct RaMontCtx *ctx = NULL;
 
-	if (BN_ISZERO(bn) || BN_ISONE(bn) || BN_ISEVEN(bn) ) {
-		*probable = BN_ISTWO(bn);
+	// no random base exists for 3
+	if (BnCmpInt(bn, 3) <= 0 || BN_ISEVEN(bn) ) {
+		*probable = BnCmpInt(bn, 2) == 0 || BnCmpInt(bn, 3) == 0;
 		return RA_ERR_SUCCESS;
 	}
 
-- 
2.43.0


From fed9437c2e02cb1057f9b7042b83dbf21229eaa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:25 +0000
Subject: [PATCH 20/45] fix: check the first allocation of the primality test

---
 src/com/prime.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/com/prime.c b/src/com/prime.c
index 719ab88..a00b125 100644
--- a/src/com/prime.c
+++ b/src/com/prime.c
@@ -293,6 +293,10 @@ static int CheckMillerRabin(struct RaBigNumber *bn, int count, struct RaRandom *
 	}
 
 	n1 = BnClone(bn);
+	if (n1 == NULL) {
+		result = RA_ERR_OUT_OF_MEMORY;
+		goto _EXIT;
+	}
 	BnSubInt(n1, 1);	// n1 = n - 1
 
 	s = 0;
-- 
2.43.0


From ff0bcd675087e2b887962146d4173c4bd8ba9523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:06 +0000
Subject: [PATCH 21/45] fix: RaGenPrimeNumberEx reported success when cancelled
 and leaked its generator on errors

---
 src/com/prime.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/com/prime.c b/src/com/prime.c
index a00b125..2d23163 100644
--- a/src/com/prime.c
+++ b/src/com/prime.c
@@ -453,17 +453,19 @@ int RaGenPrimeNumberEx(struct RaBigNumber *bn, int bit, int(*progress)(int count
 	for (;;) {
 		count++;
 		if (progress != NULL) {
-			if (progress(count, userData) != 0)
+			if (progress(count, userData) != 0) {
+				result = RA_ERR_INVALID_DATA;		// cancelled, bn is not a prime number
 				break;
+			}
 		}
 		result = GenProbablePrimeNumber(bn, bit, rnd);
 		if (result != RA_ERR_SUCCESS) {
-			return result;
+			break;
 		}
 
 		result = CheckMillerRabin(bn, checkCount, rnd, &isPrime);
 		if (result != RA_ERR_SUCCESS) {
-			return result;
+			break;
 		}
 		if (isPrime) {
 			break;
@@ -472,7 +474,7 @@ int RaGenPrimeNumberEx(struct RaBigNumber *bn, int bit, int(*progress)(int count
 	if (tmpRnd != NULL)
 		RaRandomDestroy(tmpRnd);
 
-	return RA_ERR_SUCCESS;
+	return result;
 }
 
 int RaIsPrimeNumber(struct RaBigNumber *bn)
-- 
2.43.0


From bcd6297604241ca8fe27f8f5fc1cc5bc2eeff08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:47 +0000
Subject: [PATCH 22/45] fix: generated primes could be one bit longer than
 requested

Only an overflow of the low 64 bits was noticed when searching upward. Small primes
that are in the sieve's table themselves were skipped, running past the size, and a
number without room for the prime was not reported.
---
 src/com/prime.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/com/prime.c b/src/com/prime.c
index 2d23163..9628862 100644
--- a/src/com/prime.c
+++ b/src/com/prime.c
@@ -381,19 +381,28 @@ _EXIT:
 
 static int GenProbablePrimeNumber(struct RaBigNumber *bn, int bit, struct RaRandom *rnd)
 {
+	int result;
 	uint32_t *mods = NULL;
 	int i;
 	uint32_t add;
 	uint64_t val;
 	bn_uint_t mod;
 
+	if (bit < 2) {
+		return RA_ERR_INVALID_PARAM;
+	}
 	mods = malloc(NUM_PRIME * sizeof(uint32_t));
 	if (mods == NULL) {
 		return RA_ERR_OUT_OF_MEMORY;
 	}
 
 	for (;;) {
-		BnGetRandomRSA(bn, bit, rnd);
+		result = BnGetRandomRSA(bn, bit, rnd);
+		if (result != RA_ERR_SUCCESS) {
+			free(mods);
+			return result;
+		}
+		val = _BnGetUInt64(bn);
 
 		for (i = 0; i < NUM_PRIME; i++) {
 			BnModUInt(bn, primes[i], &mod);
@@ -402,7 +411,7 @@ static int GenProbablePrimeNumber(struct RaBigNumber *bn, int bit, struct RaRand
 		add = 0;
 		for (;;) {
 			for (i = 0; i < NUM_PRIME; i++) {
-				if ((mods[i] + add) % primes[i] == 0) {
+				if ((mods[i] + add) % primes[i] == 0 && val + add != primes[i]) {
 					add += 2;
 					break;
 				}
@@ -412,14 +421,15 @@ static int GenProbablePrimeNumber(struct RaBigNumber *bn, int bit, struct RaRand
 		}
 
 		// avoid overflow. if a random value is 0xffff....fff0 and an add value is 0x10, bit count will be unexpectedly increased. 
-		val = _BnGetUInt64(bn);
 		if (val + add < val)
 			continue;
+		BnAddUInt(bn, add);
+		if (BnGetBitLength(bn) != bit)
+			continue;
 
 		break;
 	}
 
-	BnAddUInt(bn, add);
 	free(mods);
 
 	return RA_ERR_SUCCESS;
-- 
2.43.0


From 790a9bb6c89d454e4b2306e8ad903baff804f4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:34 +0000
Subject: [PATCH 23/45] fix: BnGetRandomRSA wrote before the number for a bit
 count of zero

---
 src/com/bignumber.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index d695b8f..a5be87f 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -1492,6 +1492,9 @@ int BnGetRandomRSA(struct RaBigNumber *bn, int bit, struct RaRandom *rnd)
 	int ret;
 	int word;
 
+	if (bit <= 0)
+		return RA_ERR_INVALID_PARAM;
+
 	ret = BnGenRandom(bn, bit, rnd);
 	if (ret != RA_ERR_SUCCESS)
 		return ret;
-- 
2.43.0


From b72e4cd8793649d4d2f6f02afe3247a229ec1cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:32 +0000
Subject: [PATCH 24/45] fix: use urandom on descriptor 0 and after a short read

---
 src/com/random.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/com/random.c b/src/com/random.c
index c7618da..ba8cfd4 100644
--- a/src/com/random.c
+++ b/src/com/random.c
@@ -15,6 +15,7 @@
 #		include <Windows.h>
 #		include <wincrypt.h>
 #else
+#	include <errno.h>
 #	include <fcntl.h>
 #	include <unistd.h>
 #	ifdef HAVE_TIMES
@@ -154,11 +155,21 @@ static void RaRandomGetRandomSeedBytes(/*out*/uint8_t seedBytes[RA_RAND_SEED_LEN
 #else
 	int fd;
 	int size;
+	int offset = 0;
 	result = RA_ERR_INVALID_DATA;
 	fd = open("/dev/urandom", O_RDONLY);
-	if (fd > 0) {
-		size = read(fd, seedBytes, RA_RAND_SEED_LEN - 4);
-		if (size == RA_RAND_SEED_LEN - 4) {
+	if (fd >= 0) {
+		while (offset < RA_RAND_SEED_LEN - 4) {
+			size = read(fd, seedBytes + offset, RA_RAND_SEED_LEN - 4 - offset);
+			if (size < 0 && errno == EINTR) {
+				continue;
+			}
+			if (size <= 0) {
+				break;
+			}
+			offset += size;
+		}
+		if (offset == RA_RAND_SEED_LEN - 4) {
 			result = RA_ERR_SUCCESS;
 		}
 		close(fd);
-- 
2.43.0


From 9a2ed46c53c378bdcc74507d8617e1d8e61cbab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:16 +0000
Subject: [PATCH 25/45] fix: RaRandom must not return 0

---
 src/com/random.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/com/random.c b/src/com/random.c
index ba8cfd4..2236b98 100644
--- a/src/com/random.c
+++ b/src/com/random.c
@@ -255,7 +255,7 @@ double RaRandom(struct RaRandom *ctx)
 	do {
 		RaRandomBytes(ctx, 4, rnd_buffer);
 		rnd_val = (rnd_buffer[0] << 24) | (rnd_buffer[1] << 16) | (rnd_buffer[2] << 8) | rnd_buffer[3];
-	} while (rnd_val == UINT32_MAX);
+	} while (rnd_val == 0 || rnd_val == UINT32_MAX);
 
 	return (double)rnd_val / UINT32_MAX;
 }
-- 
2.43.0


From 3a803c88869401f0ec5d4c04bb0e2669ae23c98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:56 +0000
Subject: [PATCH 26/45] fix: RaRandomInt over the full 32-bit range always
 returned min

---
 src/com/random.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/com/random.c b/src/com/random.c
index 2236b98..e049525 100644
--- a/src/com/random.c
+++ b/src/com/random.c
@@ -262,6 +262,6 @@ double RaRandom(struct RaRandom *ctx)
 
 uint32_t RaRandomInt(struct RaRandom *ctx, uint32_t min, uint32_t max)
 {
-	uint32_t range = max - min + 1;
+	double range = (double)(max - min) + 1;
 	return min + (uint32_t)(range * RaRandom(ctx));
 }
-- 
2.43.0


From 61611da16783e616e32ea8200f2626478518ad5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:02 +0000
Subject: [PATCH 27/45] fix: RaRsaVerify ignored errors and accepted signatures
 outside the range of the modulus

---
 src/pk/rsa.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/pk/rsa.c b/src/pk/rsa.c
index f90f6ce..a8e7a8e 100644
--- a/src/pk/rsa.c
+++ b/src/pk/rsa.c
@@ -181,18 +181,21 @@ int RaRsaVerify(struct RaRsaKeyPair* key, struct RaBigNumber *secure, struct RaB
 	int result;
 	struct RaBigNumber *decrypted;
 
+	// signature should be in [0, n)
+	if (BN_ISNEG(secure) || BnCmp(secure, key->mod) >= 0)
+		return RA_ERR_INVALID_DATA;
+
 	decrypted = BnNewW(key->mod->length);
 	if (decrypted == NULL)
 		return RA_ERR_OUT_OF_MEMORY;
 
-	RaMontExpMod(key->mont, decrypted, secure, key->pub);
-	result = BnCmp(message, decrypted);
+	result = RaMontExpMod(key->mont, decrypted, secure, key->pub);
+	if (result == RA_ERR_SUCCESS && BnCmp(message, decrypted) != 0)
+		result = RA_ERR_INVALID_DATA;
 
 	BnFree(decrypted);
 
-	if (result == 0)
-		return RA_ERR_SUCCESS;	// validated
-	return RA_ERR_INVALID_DATA;
+	return result;
 }
 
 int RaRsaKeyBitLength( struct RaRsaKeyPair* key )
-- 
2.43.0


From adc10025f604217ca36e9e0b332586428066645b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:40 +0000
Subject: [PATCH 28/45] fix: draw new primes when the public exponent is not
 coprime to them

---
 src/pk/rsa.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/pk/rsa.c b/src/pk/rsa.c
index a8e7a8e..d028972 100644
--- a/src/pk/rsa.c
+++ b/src/pk/rsa.c
@@ -26,6 +26,8 @@ int RaRsaCreateKeyPair(int bit, /*out*/struct RaRsaKeyPair** keyPair) {
 	struct RaRsaKeyPair *key = NULL;
 	struct RaBigNumber *phi = NULL;
 	struct RaRandom *rnd = NULL;
+	bn_uint_t rem1;
+	bn_uint_t rem2;
 
 	assert((bit % 2) == 0);
 
@@ -76,7 +78,13 @@ int RaRsaCreateKeyPair(int bit, /*out*/struct RaRsaKeyPair** keyPair) {
 		} while ( BnCmp( key->prime1, key->prime2 ) == 0 );
 
 		BnMul(key->mod, key->prime1, key->prime2);
-	} while(BnGetBitLength(key->mod) != bit);
+
+		// public exponent should be coprime to (p-1)(q-1)
+		result = BnModUInt(key->prime1, 65537, &rem1);
+		if (result != RA_ERR_SUCCESS) goto _EXIT;
+		result = BnModUInt(key->prime2, 65537, &rem2);
+		if (result != RA_ERR_SUCCESS) goto _EXIT;
+	} while(BnGetBitLength(key->mod) != bit || rem1 == 1 || rem2 == 1);
 
 	BnSubInt(key->prime1, 1);
 	BnSubInt(key->prime2, 1);
-- 
2.43.0


From dd47386614b49c1c101b5ec58211791e92a5eb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:58 +0000
Subject: [PATCH 29/45] fix: refuse empty and negative integers in keys

---
 src/pk/rsa.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pk/rsa.c b/src/pk/rsa.c
index d028972..58cf22f 100644
--- a/src/pk/rsa.c
+++ b/src/pk/rsa.c
@@ -297,8 +297,13 @@ static int RaRsaNewASN1Integer(const uint8_t *asn1Data, struct RaAsn1Node *node,
 		result = RA_ERR_INVALID_DATA;
 		goto _EXIT;
 	}
+	// should not be empty or negative
+	if (node->dataLength <= 0 || (asn1Data[node->dataOffset] & 0x80)) {
+		result = RA_ERR_INVALID_DATA;
+		goto _EXIT;
+	}
 	bit = node->dataLength * 8;
-	if (asn1Data[node->dataOffset] == 0x00 || asn1Data[node->dataOffset] == 0xff) {
+	if (asn1Data[node->dataOffset] == 0x00) {
 		bit -= 8;
 	}
 
-- 
2.43.0


From cd7e4810a00e3c1b5957bdfd6964237fa1006d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:35 +0000
Subject: [PATCH 30/45] fix: refuse a zero or even modulus when importing a key

---
 src/pk/rsa.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/pk/rsa.c b/src/pk/rsa.c
index 58cf22f..21c7abb 100644
--- a/src/pk/rsa.c
+++ b/src/pk/rsa.c
@@ -352,6 +352,10 @@ int RaRsaCreateKeyPub(const uint8_t *asn1Data, int dataLen, /*out*/struct RaRsaK
 	cur = cur->child;
 	result = RaRsaNewASN1Integer(asn1Data, cur, &key->mod);
 	if (result != RA_ERR_SUCCESS) goto _EXIT;
+	if (BN_ISEVEN(key->mod)) {		// zero or even
+		result = RA_ERR_INVALID_DATA;
+		goto _EXIT;
+	}
 
 	cur = cur->next;
 	result = RaRsaNewASN1Integer(asn1Data, cur, &key->pub);
@@ -405,6 +409,10 @@ int RaRsaCreateKeyPriv(const uint8_t *asn1Data, int dataLen, /*out*/struct RaRsa
 
 	result = RaRsaNewASN1Integer(asn1Data, cur, &key->mod);
 	if (result != RA_ERR_SUCCESS) goto _EXIT;
+	if (BN_ISEVEN(key->mod)) {		// zero or even
+		result = RA_ERR_INVALID_DATA;
+		goto _EXIT;
+	}
 
 	cur = cur->next;
 	result = RaRsaNewASN1Integer(asn1Data, cur, &key->pub);
-- 
2.43.0


From 76cab9f938a902effe06c7677841931619bdcc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:14 +0000
Subject: [PATCH 31/45] fix: compare the whole algorithm identifier

---
 src/pk/rsa.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pk/rsa.c b/src/pk/rsa.c
index 21c7abb..ffd5614 100644
--- a/src/pk/rsa.c
+++ b/src/pk/rsa.c
@@ -463,7 +463,7 @@ _EXIT:
 }
 
 #define OID_RSA_Encryption		"\x2a\x86\x48\x86\xf7\x0d\x01\x01\x01"		// 1.2.840.113549.1.1.1
-#define IS_OID(data, node, oid)		((node)->type == RA_ASN1_OBJ_IDENTIFIER && memcmp((uint8_t*)data+(node)->dataOffset, oid, sizeof(oid)-1) == 0)
+#define IS_OID(data, node, oid)		((node)->type == RA_ASN1_OBJ_IDENTIFIER && (node)->dataLength == sizeof(oid)-1 && memcmp((uint8_t*)data+(node)->dataOffset, oid, sizeof(oid)-1) == 0)
 
 
 // pkcs#8, byte array = BER
-- 
2.43.0


From 7854c0929b09f5fad75a15d8cab8435a2b65631c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:55 +0000
Subject: [PATCH 32/45] fix: require the sequences and the version of a key
 encoding

---
 src/pk/rsa.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/pk/rsa.c b/src/pk/rsa.c
index ffd5614..ebbba08 100644
--- a/src/pk/rsa.c
+++ b/src/pk/rsa.c
@@ -349,6 +349,10 @@ int RaRsaCreateKeyPub(const uint8_t *asn1Data, int dataLen, /*out*/struct RaRsaK
 	result = RaAsn1GetRoot(ctx, &cur);
 	if (result != RA_ERR_SUCCESS) goto _EXIT;
 
+	if (cur->type != RA_ASN1_OBJ_SEQUENCE) {
+		result = RA_ERR_INVALID_DATA;
+		goto _EXIT;
+	}
 	cur = cur->child;
 	result = RaRsaNewASN1Integer(asn1Data, cur, &key->mod);
 	if (result != RA_ERR_SUCCESS) goto _EXIT;
@@ -404,7 +408,15 @@ int RaRsaCreateKeyPriv(const uint8_t *asn1Data, int dataLen, /*out*/struct RaRsa
 	result = RaAsn1GetRoot(ctx, &cur);
 	if (result != RA_ERR_SUCCESS) goto _EXIT;
 
+	if (cur->type != RA_ASN1_OBJ_SEQUENCE) {
+		result = RA_ERR_INVALID_DATA;
+		goto _EXIT;
+	}
 	cur = cur->child;
+	if (cur->type != RA_ASN1_OBJ_INTEGER) {		// version
+		result = RA_ERR_INVALID_DATA;
+		goto _EXIT;
+	}
 	cur = cur->next;		// skip version
 
 	result = RaRsaNewASN1Integer(asn1Data, cur, &key->mod);
@@ -480,12 +492,16 @@ int RaRsaCreateKeyFromByteArray(const uint8_t *asn1Data, int dataLen, /*out*/str
 	result = RaAsn1GetRoot(ctx, &cur);
 	if (result != RA_ERR_SUCCESS) goto _EXIT;
 
+	if (cur->type != RA_ASN1_OBJ_SEQUENCE) {
+		result = RA_ERR_INVALID_DATA;
+		goto _EXIT;
+	}
 	cur = cur->child;
 	if (cur->type == RA_ASN1_OBJ_INTEGER) {	// version
 		isPrivate = 1;
 		cur = cur->next;
 	}
-	if (!IS_OID(asn1Data, cur->child, OID_RSA_Encryption)) {
+	if (cur->type != RA_ASN1_OBJ_SEQUENCE || !IS_OID(asn1Data, cur->child, OID_RSA_Encryption)) {
 		result = RA_ERR_INVALID_DATA;
 		goto _EXIT;
 	}
-- 
2.43.0


From 0e4b87a5f53dda35de6f75f9d0d3e161365477a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:06 +0000
Subject: [PATCH 33/45] fix: track the ends of nested, empty and
 indefinite-length ASN.1 objects

---
 src/pk/asn1.c | 35 ++++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/src/pk/asn1.c b/src/pk/asn1.c
index d8e2d60..f82416f 100644
--- a/src/pk/asn1.c
+++ b/src/pk/asn1.c
@@ -84,6 +84,11 @@ static int ASN1Pop(struct RaAsn1Ctx *ctx)
 	return RA_ERR_SUCCESS;
 }
 
+static int ASN1IsIndefinite(struct RaAsn1Ctx *ctx)
+{
+	return ctx->dataSP > 0 && ctx->dataStack[ctx->dataSP - 1].prevObj->dataLength < 0;
+}
+
 static int RaAsn1CreateNode(struct RaAsn1Ctx *ctx)
 {
 	int result;
@@ -182,22 +187,38 @@ static int ASN1Parse(struct RaAsn1Ctx *ctx)
 {
 	int result;
 
-	while (ctx->dataIndex < ctx->dataEnd) {
+	for (;;) {
+		// leave all the objects that are finished
+		while (ctx->dataSP > 0 && ctx->dataIndex >= ctx->dataEnd) {
+			if (ASN1IsIndefinite(ctx)) {	// end-of-content is missing
+				result = RA_ERR_OUT_OF_BUFFER;
+				goto _EXIT;
+			}
+			result = ASN1Pop(ctx);
+			if (result != RA_ERR_SUCCESS) goto _EXIT;
+		}
+		if (ctx->dataIndex >= ctx->dataEnd) {
+			break;
+		}
+
 		result = ASN1Read(ctx);
 		if (result != RA_ERR_SUCCESS) goto _EXIT;
 
 		if (ctx->cur->type & RA_ASN1_OBJ_TYPE_CONST) {
-			ASN1Push(ctx);
+			result = ASN1Push(ctx);
+			if (result != RA_ERR_SUCCESS) goto _EXIT;
 			continue;
 		}
 
-		if (ctx->dataIndex >= ctx->dataEnd ||
-			(ctx->cur->type == 0 && ctx->cur->dataLength == 0) ) {		// end-of-content
-			result = ASN1Pop(ctx);
-			if (result == RA_ERR_OUT_OF_BUFFER) {
-				result = RA_ERR_SUCCESS;
+		if (ctx->cur->type == 0 && ctx->cur->dataLength == 0) {		// end-of-content
+			if (ctx->dataSP <= 0) {
 				break;
 			}
+			if (!ASN1IsIndefinite(ctx)) {
+				result = RA_ERR_INVALID_DATA;
+				goto _EXIT;
+			}
+			result = ASN1Pop(ctx);
 			if (result != RA_ERR_SUCCESS) goto _EXIT;
 		}
 	};
-- 
2.43.0


From 232ed168ecb8d7441398a045111441a4e2a0970f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:04 +0000
Subject: [PATCH 34/45] fix: export keys whose numbers are longer than the
 modulus

---
 src/pk/rsa.c | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/pk/rsa.c b/src/pk/rsa.c
index ebbba08..e254d9a 100644
--- a/src/pk/rsa.c
+++ b/src/pk/rsa.c
@@ -591,6 +591,32 @@ static const uint8_t rsakeyVersion[] = {
 	0x02, 0x01, 0x00
 };
 
+// bit length of the longest number in the key. the numbers of an imported key can be longer than the modulus
+static int RaRsaMaxBitLength(struct RaRsaKeyPair* key)
+{
+	struct RaBigNumber *numbers[8];
+	int max = 0;
+	int bit;
+	int i;
+
+	numbers[0] = key->mod;
+	numbers[1] = key->pub;
+	numbers[2] = key->priv;
+	numbers[3] = key->prime1;
+	numbers[4] = key->prime2;
+	numbers[5] = key->exp1;
+	numbers[6] = key->exp2;
+	numbers[7] = key->coeff;
+	for (i = 0; i < 8; i++) {
+		if (numbers[i] != NULL) {
+			bit = BnGetBitLength(numbers[i]);
+			if (bit > max)
+				max = bit;
+		}
+	}
+	return max;
+}
+
 int RaRsaPrivKeyToByteArray(struct RaRsaKeyPair* key, /*out*/uint8_t *asn1Data, int dataLen, /*out*/int *resultLen)
 {
 	int result;
@@ -601,7 +627,7 @@ int RaRsaPrivKeyToByteArray(struct RaRsaKeyPair* key, /*out*/uint8_t *asn1Data,
 	int bit;
 	int bytelen;
 	int len;
-	bit = BnGetBitLength(key->mod);
+	bit = RaRsaMaxBitLength(key);
 	bytelen = bit * 8 + 1;	// max
 
 	if (key->priv == NULL) {
@@ -774,7 +800,7 @@ int RaRsaPubKeyToByteArray(struct RaRsaKeyPair* key, /*out*/uint8_t *asn1Data, i
 	int bit;
 	int bytelen;
 	int len;
-	bit = BnGetBitLength(key->mod);
+	bit = RaRsaMaxBitLength(key);
 	bytelen = bit * 8 + 1;	// max
 
 	temp = (uint8_t*)malloc(bytelen);
-- 
2.43.0


From b49c524e67b4a3d4071bc041f163ca641e73bed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:41 +0000
Subject: [PATCH 35/45] fix: check the allocations of RaRsaVerifyKey

---
 src/pk/rsa.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pk/rsa.c b/src/pk/rsa.c
index e254d9a..6e53679 100644
--- a/src/pk/rsa.c
+++ b/src/pk/rsa.c
@@ -232,6 +232,10 @@ int RaRsaVerifyKey(struct RaRsaKeyPair *key)
 	bit = BnGetBitLength(key->mod);
 	temp = BnNew(bit);
 	phi = BnNew(bit);
+	if (temp == NULL || phi == NULL) {
+		result = RA_ERR_OUT_OF_MEMORY;
+		goto _EXIT;
+	}
 
 	CHECK_KEY_DATA(BnGetBitLength(key->prime1) + BnGetBitLength(key->prime2) == bit);
 
-- 
2.43.0


From c2b78f1b5fa29f40c01c34522bda4d417f3ace88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:20 +0000
Subject: [PATCH 36/45] fix: RaRsaVerifyKey refused keys whose primes are
 together one bit longer than the modulus

---
 src/pk/rsa.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/pk/rsa.c b/src/pk/rsa.c
index 6e53679..59f3107 100644
--- a/src/pk/rsa.c
+++ b/src/pk/rsa.c
@@ -221,6 +221,7 @@ int RaRsaVerifyKey(struct RaRsaKeyPair *key)
 	struct RaBigNumber *prime1Sub1 = NULL;
 	struct RaBigNumber *prime2Sub1 = NULL;
 	int bit;
+	int len;
 
 	CHECK_KEY_DATA(BnCmp(key->pub, key->mod) < 0);
 
@@ -230,14 +231,16 @@ int RaRsaVerifyKey(struct RaRsaKeyPair *key)
 	}
 
 	bit = BnGetBitLength(key->mod);
-	temp = BnNew(bit);
-	phi = BnNew(bit);
+	temp = BnNew(bit + 1);
+	phi = BnNew(bit + 1);
 	if (temp == NULL || phi == NULL) {
 		result = RA_ERR_OUT_OF_MEMORY;
 		goto _EXIT;
 	}
 
-	CHECK_KEY_DATA(BnGetBitLength(key->prime1) + BnGetBitLength(key->prime2) == bit);
+	// the product of two numbers can be one bit shorter than the numbers together
+	len = BnGetBitLength(key->prime1) + BnGetBitLength(key->prime2);
+	CHECK_KEY_DATA(len == bit || len == bit + 1);
 
 	result = RaIsPrimeNumber(key->prime1);
 	if (result != RA_ERR_SUCCESS) goto _EXIT;
-- 
2.43.0


From 156d401b9086b0ced9a6cf6812ffad98237f0ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:57 +0000
Subject: [PATCH 37/45] fix: RaRsaVerifyKey accepted equal primes

---
 src/pk/rsa.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pk/rsa.c b/src/pk/rsa.c
index 59f3107..9660fdd 100644
--- a/src/pk/rsa.c
+++ b/src/pk/rsa.c
@@ -250,6 +250,7 @@ int RaRsaVerifyKey(struct RaRsaKeyPair *key)
 
 	BnMul(temp, key->prime1, key->prime2);
 	CHECK_KEY_DATA(BnCmp(temp, key->mod) == 0);
+	CHECK_KEY_DATA(BnCmp(key->prime1, key->prime2) != 0);
 
 	prime1Sub1 = BnClone(key->prime1);
 	prime2Sub1 = BnClone(key->prime2);
-- 
2.43.0


From c226e4dc47378d27b7b50c2866f5bfc0a7113ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:37 +0000
Subject: [PATCH 38/45] fix: RaRsaVerifyKey refused private exponents computed
 modulo lcm(p-1, q-1)

---
 src/pk/rsa.c | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/pk/rsa.c b/src/pk/rsa.c
index 9660fdd..530ee6e 100644
--- a/src/pk/rsa.c
+++ b/src/pk/rsa.c
@@ -217,7 +217,7 @@ int RaRsaVerifyKey(struct RaRsaKeyPair *key)
 {
 	int result;
 	struct RaBigNumber *temp = NULL;
-	struct RaBigNumber *phi = NULL;
+	struct RaBigNumber *product = NULL;
 	struct RaBigNumber *prime1Sub1 = NULL;
 	struct RaBigNumber *prime2Sub1 = NULL;
 	int bit;
@@ -232,8 +232,8 @@ int RaRsaVerifyKey(struct RaRsaKeyPair *key)
 
 	bit = BnGetBitLength(key->mod);
 	temp = BnNew(bit + 1);
-	phi = BnNew(bit + 1);
-	if (temp == NULL || phi == NULL) {
+	product = BnNew(bit * 2);
+	if (temp == NULL || product == NULL) {
 		result = RA_ERR_OUT_OF_MEMORY;
 		goto _EXIT;
 	}
@@ -262,12 +262,19 @@ int RaRsaVerifyKey(struct RaRsaKeyPair *key)
 	BnSubInt(prime1Sub1, 1);
 	BnSubInt(prime2Sub1, 1);
 
-	BnMul(phi, prime1Sub1, prime2Sub1);
+	// priv is an inverse of pub mod phi or mod lcm(prime1 - 1, prime2 - 1)
+	CHECK_KEY_DATA(BnCmp(key->priv, key->mod) < 0);
 
-	result = GetGCDEx(NULL, temp, NULL, key->pub, phi, 1);
+	BnMul(product, key->pub, key->priv);
+	result = BnMod(temp, product, prime1Sub1);
 	if (result != RA_ERR_SUCCESS) goto _EXIT;
 
-	CHECK_KEY_DATA(BnCmp(temp, key->priv) == 0);
+	CHECK_KEY_DATA(BN_ISONE(temp));
+
+	result = BnMod(temp, product, prime2Sub1);
+	if (result != RA_ERR_SUCCESS) goto _EXIT;
+
+	CHECK_KEY_DATA(BN_ISONE(temp));
 
 	result = BnMod(temp, key->priv, prime1Sub1);
 	if (result != RA_ERR_SUCCESS) goto _EXIT;
@@ -288,7 +295,7 @@ int RaRsaVerifyKey(struct RaRsaKeyPair *key)
 
 _EXIT:
 	BN_SAFEFREE(temp);
-	BN_SAFEFREE(phi);
+	BN_SAFEFREE(product);
 	BN_SAFEFREE(prime1Sub1);
 	BN_SAFEFREE(prime2Sub1);
 
-- 
2.43.0


From bd79e230520b3172e87ceac28cfd8c8a6a506de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:10 +0000
Subject: [PATCH 39/45] fix: erase secrets so that the compiler cannot drop it

---
 src/cipher/aes.c          |  2 +-
 src/cipher/aria.c         |  2 +-
 src/cipher/blowfish.c     |  2 +-
 src/cipher/des.c          |  2 +-
 src/cipher/rc4.c          |  2 +-
 src/cipher/seed.c         |  2 +-
 src/com/bignumber.c       |  2 +-
 src/com/montexpmod.c      |  2 +-
 src/com/random.c          | 12 ++++++------
 src/digest/has160.c       |  2 +-
 src/digest/md2.c          |  2 +-
 src/digest/md4.c          |  2 +-
 src/digest/md5.c          |  2 +-
 src/digest/sha1.c         |  2 +-
 src/digest/sha2.c         |  2 +-
 src/include/racrypt_com.h |  9 +++++++++
 src/pk/rsa.c              |  2 +-
 17 files changed, 30 insertions(+), 21 deletions(-)

diff --git a/src/cipher/aes.c b/src/cipher/aes.c
index da5c555..5a67ed1 100644
--- a/src/cipher/aes.c
+++ b/src/cipher/aes.c
@@ -364,7 +364,7 @@ int RaAesCreate(const uint8_t *key, enum RaAesKeyType keyType, enum RaBlockCiphe
 void RaAesDestroy(struct RaAesCtx *ctx)
 {
 	if (ctx != NULL) {
-		memset(ctx, 0, sizeof(struct RaAesCtx));
+		RaClearMemory(ctx, sizeof(struct RaAesCtx));
 		free(ctx);
 	}
 }
diff --git a/src/cipher/aria.c b/src/cipher/aria.c
index 0a060d0..f1fc729 100644
--- a/src/cipher/aria.c
+++ b/src/cipher/aria.c
@@ -358,7 +358,7 @@ int RaAriaCreate(const uint8_t *key, enum RaAriaKeyType keyType, enum RaBlockCip
 void RaAriaDestroy(struct RaAriaCtx *ctx)
 {
 	if (ctx != NULL) {
-		memset(ctx, 0, sizeof(struct RaAriaCtx));
+		RaClearMemory(ctx, sizeof(struct RaAriaCtx));
 		free(ctx);
 	}
 }
diff --git a/src/cipher/blowfish.c b/src/cipher/blowfish.c
index 2c3707a..e95a90d 100644
--- a/src/cipher/blowfish.c
+++ b/src/cipher/blowfish.c
@@ -317,7 +317,7 @@ int RaBlowfishCreate(const uint8_t *key, int keyLen, enum RaBlockCipherMode opMo
 void RaBlowfishDestroy(struct RaBlowfishCtx *ctx)
 {
 	if (ctx != NULL) {
-		memset(ctx, 0, sizeof(struct RaBlowfishCtx));
+		RaClearMemory(ctx, sizeof(struct RaBlowfishCtx));
 		free(ctx);
 	}
 }
diff --git a/src/cipher/des.c b/src/cipher/des.c
index 3d5a7f4..20fccd8 100644
--- a/src/cipher/des.c
+++ b/src/cipher/des.c
@@ -569,7 +569,7 @@ int RaDesCreate(const uint8_t *key, enum RaDesKeyType keyType, enum RaBlockCiphe
 void RaDesDestroy(struct RaDesCtx *ctx)
 {
 	if (ctx != NULL) {
-		memset(ctx, 0, sizeof(struct RaDesCtx));
+		RaClearMemory(ctx, sizeof(struct RaDesCtx));
 		free(ctx);
 	}
 }
diff --git a/src/cipher/rc4.c b/src/cipher/rc4.c
index 5f08f42..a418f0c 100644
--- a/src/cipher/rc4.c
+++ b/src/cipher/rc4.c
@@ -22,7 +22,7 @@ int RaRc4Create(const uint8_t* key, int keyLen, struct RaRc4Ctx** ctxp)
 void RaRc4Destroy(struct RaRc4Ctx* ctx)
 {
 	if (ctx != NULL) {
-		memset(ctx, 0, sizeof(struct RaRc4Ctx));
+		RaClearMemory(ctx, sizeof(struct RaRc4Ctx));
 		free(ctx);
 	}
 }
diff --git a/src/cipher/seed.c b/src/cipher/seed.c
index 7c8bd69..11612ab 100644
--- a/src/cipher/seed.c
+++ b/src/cipher/seed.c
@@ -322,7 +322,7 @@ int RaSeedCreate(const uint8_t *key, enum RaBlockCipherMode opMode, struct RaSee
 void RaSeedDestroy(struct RaSeedCtx *ctx)
 {
 	if (ctx != NULL) {
-		memset(ctx, 0, sizeof(struct RaSeedCtx));
+		RaClearMemory(ctx, sizeof(struct RaSeedCtx));
 		free(ctx);
 	}
 }
diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index a5be87f..f53a89a 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -68,7 +68,7 @@ void BnFree(struct RaBigNumber * bn)
 
 void BnClearFree(struct RaBigNumber* bn)
 {
-	memset(bn, 0, sizeof(struct RaBigNumber) + sizeof(bn_uint_t) * bn->max_length);
+	RaClearMemory(bn, sizeof(struct RaBigNumber) + sizeof(bn_uint_t) * bn->max_length);
 	free(bn);
 }
 
diff --git a/src/com/montexpmod.c b/src/com/montexpmod.c
index b893222..ee6a192 100644
--- a/src/com/montexpmod.c
+++ b/src/com/montexpmod.c
@@ -135,7 +135,7 @@ void RaMontDestroy(struct RaMontCtx* ctx)
 		if (ctx->BB != NULL) BnClearFree(ctx->BB);
 		if (ctx->tmp != NULL) BnClearFree(ctx->tmp);
 		if (ctx->mul != NULL) BnClearFree(ctx->mul);
-		memset(ctx, 0, sizeof(struct RaMontCtx));
+		RaClearMemory(ctx, sizeof(struct RaMontCtx));
 		free(ctx);
 	}
 }
diff --git a/src/com/random.c b/src/com/random.c
index e049525..2845085 100644
--- a/src/com/random.c
+++ b/src/com/random.c
@@ -41,7 +41,7 @@ int RaRandomCreate(enum RaRandomAlgorithm algorithm, uint8_t *seed, int seed_len
 	}
 	result = RaRandomInit(ctx, algorithm, seed, seed_len);
 	if (result != RA_ERR_SUCCESS) {
-		memset(ctx, 0, sizeof(struct RaRandom));
+		RaClearMemory(ctx, sizeof(struct RaRandom));
 		free(ctx);
 		return result;
 	}
@@ -69,7 +69,7 @@ void RaRandomDestroy(struct RaRandom *ctx)
 				break;
 			}
 		}
-		memset(ctx, 0, sizeof(struct RaRandom));
+		RaClearMemory(ctx, sizeof(struct RaRandom));
 		free(ctx);
 	}
 }
@@ -112,7 +112,7 @@ static int RaRandomInit(struct RaRandom *ctx, enum RaRandomAlgorithm algorithm,
 	}
 
 	RaRandomUpdate(ctx, seed, seed_len);
-	memset(default_seed, 0, RA_RAND_SEED_LEN);
+	RaClearMemory(default_seed, RA_RAND_SEED_LEN);
 
 	return RA_ERR_SUCCESS;
 }
@@ -205,7 +205,7 @@ static void RaRandomUpdate(struct RaRandom *ctx, uint8_t *buffer, int buffer_len
 		RaMd5Update((struct RaMd5Ctx *)ctx->alg_ctx, count_buffer, 4);
 		memcpy(&alg_ctx.md5_ctx, ctx->alg_ctx, sizeof(struct RaMd5Ctx));
 		RaMd5Final(&alg_ctx.md5_ctx, ctx->buffer);
-		memset(&alg_ctx.md5_ctx, 0, sizeof(struct RaMd5Ctx));
+		RaClearMemory(&alg_ctx.md5_ctx, sizeof(struct RaMd5Ctx));
 		break;
 	case RA_RAND_SHA512:
 	case RA_RAND_SHA256:
@@ -213,7 +213,7 @@ static void RaRandomUpdate(struct RaRandom *ctx, uint8_t *buffer, int buffer_len
 		RaSha2Update((struct RaSha2Ctx *)ctx->alg_ctx, count_buffer, 4);
 		memcpy(&alg_ctx.sha2_ctx, ctx->alg_ctx, sizeof(struct RaSha2Ctx));
 		RaSha2Final(&alg_ctx.sha2_ctx, ctx->buffer);
-		memset(&alg_ctx.sha2_ctx, 0, sizeof(struct RaSha2Ctx));
+		RaClearMemory(&alg_ctx.sha2_ctx, sizeof(struct RaSha2Ctx));
 		break;
 	case RA_RAND_SHA160:
 	default:
@@ -221,7 +221,7 @@ static void RaRandomUpdate(struct RaRandom *ctx, uint8_t *buffer, int buffer_len
 		RaSha1Update((struct RaSha1Ctx *)ctx->alg_ctx, count_buffer, 4);
 		memcpy(&alg_ctx.sha1_ctx, ctx->alg_ctx, sizeof(struct RaSha1Ctx));
 		RaSha1Final(&alg_ctx.sha1_ctx, ctx->buffer);
-		memset(&alg_ctx.sha1_ctx, 0, sizeof(struct RaSha1Ctx));
+		RaClearMemory(&alg_ctx.sha1_ctx, sizeof(struct RaSha1Ctx));
 		break;
 	}
 	ctx->buffer_offset = 0;
diff --git a/src/digest/has160.c b/src/digest/has160.c
index 30a367a..16dee4c 100644
--- a/src/digest/has160.c
+++ b/src/digest/has160.c
@@ -34,7 +34,7 @@ int RaHas160Create(struct RaHas160Ctx **ctxp)
 void RaHas160Destroy(struct RaHas160Ctx *ctx)
 {
 	if (ctx != NULL) {
-		memset(ctx, 0, sizeof(struct RaHas160Ctx));
+		RaClearMemory(ctx, sizeof(struct RaHas160Ctx));
 		free(ctx);
 	}
 }
diff --git a/src/digest/md2.c b/src/digest/md2.c
index d25a2a0..e037a8b 100644
--- a/src/digest/md2.c
+++ b/src/digest/md2.c
@@ -48,7 +48,7 @@ int RaMd2Create(struct RaMd2Ctx **ctxp)
 void RaMd2Destroy(struct RaMd2Ctx *ctx)
 {
 	if (ctx != NULL) {
-		memset(ctx, 0, sizeof(struct RaMd2Ctx));
+		RaClearMemory(ctx, sizeof(struct RaMd2Ctx));
 		free(ctx);
 	}
 }
diff --git a/src/digest/md4.c b/src/digest/md4.c
index 3a8ef2e..85ddd49 100644
--- a/src/digest/md4.c
+++ b/src/digest/md4.c
@@ -39,7 +39,7 @@ int RaMd4Create(struct RaMd4Ctx **ctxp)
 void RaMd4Destroy(struct RaMd4Ctx *ctx)
 {
 	if (ctx != NULL) {
-		memset(ctx, 0, sizeof(struct RaMd4Ctx));
+		RaClearMemory(ctx, sizeof(struct RaMd4Ctx));
 		free(ctx);
 	}
 }
diff --git a/src/digest/md5.c b/src/digest/md5.c
index 67fca1d..8e770e7 100644
--- a/src/digest/md5.c
+++ b/src/digest/md5.c
@@ -41,7 +41,7 @@ int RaMd5Create(struct RaMd5Ctx **ctxp)
 void RaMd5Destroy(struct RaMd5Ctx *ctx)
 {
 	if (ctx != NULL) {
-		memset(ctx, 0, sizeof(struct RaMd5Ctx));
+		RaClearMemory(ctx, sizeof(struct RaMd5Ctx));
 		free(ctx);
 	}
 }
diff --git a/src/digest/sha1.c b/src/digest/sha1.c
index eabed91..ce0c850 100644
--- a/src/digest/sha1.c
+++ b/src/digest/sha1.c
@@ -30,7 +30,7 @@ int RaSha1Create(struct RaSha1Ctx **ctxp)
 void RaSha1Destroy(struct RaSha1Ctx *ctx)
 {
 	if (ctx != NULL) {
-		memset(ctx, 0, sizeof(struct RaSha1Ctx));
+		RaClearMemory(ctx, sizeof(struct RaSha1Ctx));
 		free(ctx);
 	}
 }
diff --git a/src/digest/sha2.c b/src/digest/sha2.c
index fac0c6b..df27cb6 100644
--- a/src/digest/sha2.c
+++ b/src/digest/sha2.c
@@ -35,7 +35,7 @@ int RaSha2Create(enum RaDigestAlgorithm algorithm, struct RaSha2Ctx **ctxp)
 void RaSha2Destroy(struct RaSha2Ctx *ctx)
 {
 	if (ctx != NULL) {
-		memset(ctx, 0, sizeof(struct RaSha2Ctx));
+		RaClearMemory(ctx, sizeof(struct RaSha2Ctx));
 		free(ctx);
 	}
 }
diff --git a/src/include/racrypt_com.h b/src/include/racrypt_com.h
index edb8046..76cd9bb 100644
--- a/src/include/racrypt_com.h
+++ b/src/include/racrypt_com.h
@@ -3,6 +3,8 @@
 #ifndef __RA_COM_H__
 #define __RA_COM_H__
 
+#include <stddef.h>
+
 #ifdef __cplusplus
 extern "C" {
 #endif
@@ -15,6 +17,13 @@ extern "C" {
 #define RA_ERR_INVALID_PARAM				(-5)
 #define RA_ERR_INVALID_DATA					(-6)
 
+// clear memory that is not used any more. memset could be removed by the compiler
+static inline void RaClearMemory(void *data, size_t length)
+{
+	volatile unsigned char *d = (volatile unsigned char *)data;
+	while (length-- > 0)
+		*d++ = 0;
+}
 
 #ifdef __cplusplus
 }
diff --git a/src/pk/rsa.c b/src/pk/rsa.c
index 530ee6e..537f512 100644
--- a/src/pk/rsa.c
+++ b/src/pk/rsa.c
@@ -155,7 +155,7 @@ void RaRsaDestroyKeyPair(struct RaRsaKeyPair *key)
 	if (key->mont != NULL) {
 		RaMontDestroy(key->mont);
 	}
-	memset(key, 0, sizeof(struct RaRsaKeyPair));
+	RaClearMemory(key, sizeof(struct RaRsaKeyPair));
 	free(key);
 }
 
-- 
2.43.0


From b82d8cd644f79ada8c8c71d610e7d91f99cf35e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:28 +0000
Subject: [PATCH 40/45] fix: the buffers for exporting a key were 64 times too
 large, failing or overflowing for long numbers

---
 src/pk/rsa.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pk/rsa.c b/src/pk/rsa.c
index 537f512..32d82b0 100644
--- a/src/pk/rsa.c
+++ b/src/pk/rsa.c
@@ -2,6 +2,7 @@
 
 #include <racrypt.h>
 
+#include <limits.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -643,12 +644,16 @@ int RaRsaPrivKeyToByteArray(struct RaRsaKeyPair* key, /*out*/uint8_t *asn1Data,
 	int bytelen;
 	int len;
 	bit = RaRsaMaxBitLength(key);
-	bytelen = bit * 8 + 1;	// max
+	bytelen = bit / 8 + 8;	// max, with room for an encoded length
 
 	if (key->priv == NULL) {
 		result = RA_ERR_INVALID_DATA;
 		goto _EXIT;
 	}
+	if (bytelen > INT_MAX / 8 - 64) {		// the size of the buffer would overflow
+		result = RA_ERR_NUMBER_SIZE;
+		goto _EXIT;
+	}
 	temp = (uint8_t*)malloc(bytelen);
 	if (temp == NULL) {
 		result = RA_ERR_OUT_OF_MEMORY;
@@ -816,7 +821,7 @@ int RaRsaPubKeyToByteArray(struct RaRsaKeyPair* key, /*out*/uint8_t *asn1Data, i
 	int bytelen;
 	int len;
 	bit = RaRsaMaxBitLength(key);
-	bytelen = bit * 8 + 1;	// max
+	bytelen = bit / 8 + 8;	// max, with room for an encoded length
 
 	temp = (uint8_t*)malloc(bytelen);
 	if (temp == NULL) {
-- 
2.43.0


From 88633b5810141d62359d6351b10cc4272b6d865e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:49 +0000
Subject: [PATCH 41/45] fix: refuse numbers of a key whose bit length overflows

---
 src/pk/rsa.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pk/rsa.c b/src/pk/rsa.c
index 32d82b0..329d107 100644
--- a/src/pk/rsa.c
+++ b/src/pk/rsa.c
@@ -318,6 +318,10 @@ static int RaRsaNewASN1Integer(const uint8_t *asn1Data, struct RaAsn1Node *node,
 		result = RA_ERR_INVALID_DATA;
 		goto _EXIT;
 	}
+	if (node->dataLength > INT_MAX / 8 - 8) {		// the bit length would overflow
+		result = RA_ERR_NUMBER_SIZE;
+		goto _EXIT;
+	}
 	bit = node->dataLength * 8;
 	if (asn1Data[node->dataOffset] == 0x00) {
 		bit -= 8;
-- 
2.43.0


From fde3586c211c83b67ef7af6bec87c1e0fbe85afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:55 +0000
Subject: [PATCH 42/45] fix: division without a 128-bit type did not check the
 quotient for overflow

---
 src/com/bignumber.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index f53a89a..e0d954e 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -2121,6 +2121,11 @@ static uint64_t _BnDiv128(bn_uint128_t a, uint64_t b, uint64_t *remainder)
 	bn_uint128_t bq;
 	int bit;
 
+	if (a.high >= b) {
+		// overflow
+		return UINT64_C(0xFFFFFFFFFFFFFFFF);
+	}
+
 	q = 0;
 
 	// make (ru / bu) fit to 32bit integer (ru = highst 64bit of r, bu = highst 32bit of bb)
-- 
2.43.0


From 67cb25d8022107a52555592fd1db8c017ae34bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:55 +0000
Subject: [PATCH 43/45] fix: division without a 128-bit type shifted a word by
 its whole width

---
 src/com/bignumber.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index e0d954e..8f955ea 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -2196,7 +2196,8 @@ static uint64_t _BnDiv128(bn_uint128_t a, uint64_t b, uint64_t *remainder)
 	}
 
 	// if bit is zero, r.high is zero. so (r.high << BN_WORD_BIT) does nothing
-	r.low = (r.high << (BN_WORD_BIT - bit)) | (r.low >> bit);
+	if (bit > 0)
+		r.low = (r.high << (BN_WORD_BIT - bit)) | (r.low >> bit);
 
 	//r.high = r.high >> bit;
 
-- 
2.43.0


From d7c43e12a7453f7d8f255269cb02e8a1b1952c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:42 +0000
Subject: [PATCH 44/45] fix: three bits were missing from the encoded length of
 SHA-512 messages of 2^61 bytes or more

---
 src/digest/sha2.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/digest/sha2.c b/src/digest/sha2.c
index df27cb6..849778e 100644
--- a/src/digest/sha2.c
+++ b/src/digest/sha2.c
@@ -552,7 +552,7 @@ static void _RaSha512Final(struct RaSha2Ctx* ctx, /*out*/uint8_t *output)
 	val = (uint32_t)(ctx->totalLen_hh >> 29);
 	PUT_UINT32_BE(ctx->buffer + 128 - 16, val);
 
-	val = (uint32_t)(ctx->totalLen_hh << 3);
+	val = (uint32_t)(ctx->totalLen_hh << 3) | (ctx->totalLen_h >> 29);
 	PUT_UINT32_BE(ctx->buffer + 128 - 12, val);
 
 	val = (ctx->totalLen_h << 3) | (ctx->totalLen_l >> 29);
-- 
2.43.0


From 3cc7e45db634813c208cf2d86532ccb7c504b1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:00 +0000
Subject: [PATCH 45/45] fix: block counter of the random generator overflowed a
 signed integer

---
 src/include/racrypt_random.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/racrypt_random.h b/src/include/racrypt_random.h
index 99304bb..11a0cb1 100644
--- a/src/include/racrypt_random.h
+++ b/src/include/racrypt_random.h
@@ -24,7 +24,7 @@ struct RaRandom {
 	enum RaRandomAlgorithm algorithm;
 	int buffer_len;
 	int buffer_offset;
-	int count;
+	uint32_t count;
 	uint8_t buffer[RA_RAND_BUFFER_SIZE];
 };
 
-- 
2.43.0

