From 57d11eefee314104b47a260da3407a0f196fe1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:12:38 +0000
Subject: [PATCH 01/13] fix: make ldexp() work for exponents of 248 and above

The power of two was built from "1 << (abs(n) / 8)", which shifts an int
by 31 or more as soon as abs(n) reaches 248. exp10<double>(80) returned
863.6 instead of 1e80, and idecibel() inherited the error.
---
 exp.hh | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/exp.hh b/exp.hh
index 6e822a4..6ade555 100644
--- a/exp.hh
+++ b/exp.hh
@@ -15,13 +15,10 @@ template <typename TYPE>
 TYPE ldexp(TYPE x, int n)
 {
 	int a = n < 0 ? -n : n;
-	int a8 = a / 8;
-	int ar = a - a8 * 8;
-	TYPE t = 1 << a8;
-	t *= t;
-	t *= t;
-	t *= t;
-	t *= 1 << ar;
+	TYPE t = 1;
+	for (TYPE b = 2; a; a >>= 1, b *= b)
+		if (a & 1)
+			t *= b;
 	return n < 0 ? x / t : x * t;
 }
 
-- 
2.43.0


From 0237696fa0bc829a27593b83a8eb2c579a46ff45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:12:38 +0000
Subject: [PATCH 02/13] fix: keep the sign of y in atan2() when y/x underflows

For negative x the half plane was picked by the sign of atan(y/x). That
is zero when the quotient underflows, so atan2(-1e-300, -1e300) returned
+Pi instead of -Pi. Use the sign of y itself.
---
 atan2.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atan2.hh b/atan2.hh
index a4d1ee1..df070a9 100644
--- a/atan2.hh
+++ b/atan2.hh
@@ -64,7 +64,7 @@ TYPE atan2(TYPE y, TYPE x)
 		return copysign(Const<TYPE>::HalfPi(), y);
 	TYPE phase = atan(y / x);
 	if (x < TYPE(0))
-		return phase > TYPE(0) ?
+		return y < TYPE(0) ?
 			phase - Const<TYPE>::Pi() :
 			phase + Const<TYPE>::Pi();
 	return phase;
-- 
2.43.0


From a15b5bd500ca06cf1ad6927c9deb21580c338c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:12:38 +0000
Subject: [PATCH 03/13] fix: start MovMax with the lowest value, not the
 smallest positive one

numeric_limits<float>::min() is a small positive number. An input equal
to it was mistaken for the initial value and dropped from the window too
early: MovMax<float, 3> fed with FLT_MIN and then -1 returned -1.
---
 movext.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/movext.hh b/movext.hh
index ab9bf08..b66ffac 100644
--- a/movext.hh
+++ b/movext.hh
@@ -62,7 +62,7 @@ class MovMax
 {
 	MovExt<TYPE, std::equal_to<TYPE>, std::greater<TYPE>, NUM> movmax;
 public:
-	MovMax() : movmax(std::numeric_limits<TYPE>::min())
+	MovMax() : movmax(std::numeric_limits<TYPE>::lowest())
 	{
 	}
 	TYPE operator () (TYPE input)
-- 
2.43.0


From b45cab0666b797aabada8cc67ce00cb5665e8e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:12:38 +0000
Subject: [PATCH 04/13] fix: place all negative frequencies in frequency-domain
 zero padding

For odd INPUT the first negative frequency was left among the positive
ones. For OUTPUT below 1.5 * INPUT the moved bins overlap their sources
and were overwritten before or after being copied. Move them from the
top down, then clear the gap, then split the Nyquist bin.
---
 fdzp.hh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fdzp.hh b/fdzp.hh
index 09d71e4..decc984 100644
--- a/fdzp.hh
+++ b/fdzp.hh
@@ -23,14 +23,14 @@ public:
 	void operator ()(CMPLX *output, const CMPLX *input)
 	{
 		fwd(tmp, input);
+		for (int i = INPUT-1; i > INPUT/2; --i)
+			tmp[OUTPUT-INPUT+i] = tmp[i];
+		for (int i = INPUT/2+1; i < OUTPUT-(INPUT-1)/2; ++i)
+			tmp[i] = 0;
 		if (!(INPUT&1)) {
 			tmp[INPUT/2] *= VALUE(0.5);
 			tmp[OUTPUT-INPUT/2] = tmp[INPUT/2];
 		}
-		for (int i = (INPUT+1)/2+1; i < INPUT; ++i)
-			tmp[OUTPUT-INPUT+i] = tmp[i];
-		for (int i = (INPUT+1)/2+1; i < INPUT; ++i)
-			tmp[i] = 0;
 		bwd(output, tmp);
 		for (int i = 0; i < OUTPUT; ++i)
 			output[i] *= SCALE;
-- 
2.43.0


From c0acf07defc7d1cf4ae476c12942a8920c6a8e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:12:55 +0000
Subject: [PATCH 05/13] fix: report unreadable WAV headers through
 ReadWAV::good()

When the header was rejected the constructor just returned. The stream
stayed good and channels(), rate(), bits() and frames() were never set,
so good() returned true and read() ran with indeterminate values.
---
 wav.hh | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/wav.hh b/wav.hh
index 94c8e95..18f85f1 100644
--- a/wav.hh
+++ b/wav.hh
@@ -17,6 +17,7 @@ class ReadWAV : public ReadPCM<TYPE>
 	std::ifstream is;
 	int bits_, bytes, rate_, channels_, frames_;
 	int offset, factor;
+	bool valid_;
 	int readLE(int b)
 	{
 		int v = 0;
@@ -45,7 +46,8 @@ class ReadWAV : public ReadPCM<TYPE>
 		return u.f;
 	}
 public:
-	ReadWAV(const char *name) : is(name, std::ios::binary)
+	ReadWAV(const char *name) : is(name, std::ios::binary),
+		bits_(0), bytes(0), rate_(0), channels_(0), frames_(-1), offset(0), factor(1), valid_(false)
 	{
 		char ChunkID[4];
 		is.read(ChunkID, 4);
@@ -125,6 +127,7 @@ public:
 			default:
 				return;
 		}
+		valid_ = true;
 	}
 	void read(TYPE *buf, int num, int stride = -1)
 	{
@@ -141,7 +144,7 @@ public:
 	}
 	bool good()
 	{
-		return is.good();
+		return valid_ && is.good();
 	}
 	void skip(int num)
 	{
-- 
2.43.0


From d277f1d23d1d978e65994ec0ce78d0640d0f0417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:12:55 +0000
Subject: [PATCH 06/13] fix: reject WAV files without channels

A header with zero channels passed all consistency checks and then
crashed in the division that computes the number of frames.
---
 wav.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wav.hh b/wav.hh
index 18f85f1..cbe52e2 100644
--- a/wav.hh
+++ b/wav.hh
@@ -69,6 +69,8 @@ public:
 		if (AudioFormat != 1 && AudioFormat != 3)
 			return;
 		channels_ = readLE(2);
+		if (channels_ < 1)
+			return;
 		rate_ = readLE(4);
 		int ByteRate = readLE(4);
 		int BlockAlign = readLE(2);
-- 
2.43.0


From ef1e522d1351e303f34fe263e61a125289e1f1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:12:55 +0000
Subject: [PATCH 07/13] fix: report unreadable Netpbm headers through
 ReadPNM::good()

When the header was rejected the constructor just returned. The stream
stayed good and the members were never set, so good() returned true
while width(), height() and mono() were indeterminate.
---
 netpbm.hh | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/netpbm.hh b/netpbm.hh
index 6d78ac8..74e932b 100644
--- a/netpbm.hh
+++ b/netpbm.hh
@@ -16,7 +16,7 @@ class ReadPNM : public ReadPEL<TYPE>
 {
 	std::ifstream is;
 	int width_, height_, maxval_;
-	bool mono_;
+	bool mono_, valid_;
 
 	TYPE linear(int val)
 	{
@@ -41,7 +41,8 @@ class ReadPNM : public ReadPEL<TYPE>
 		return c - '0';
 	}
 public:
-	ReadPNM(const char *name) : is(name, std::ios::binary)
+	ReadPNM(const char *name) : is(name, std::ios::binary),
+		width_(0), height_(0), maxval_(0), mono_(true), valid_(false)
 	{
 		if (is.get() != 'P')
 			return;
@@ -73,6 +74,7 @@ public:
 		width_ = num[0];
 		height_ = num[1];
 		maxval_ = num[2];
+		valid_ = true;
 	}
 	void read(TYPE *buf, int num, int stride = -1)
 	{
@@ -98,7 +100,7 @@ public:
 	}
 	bool good()
 	{
-		return is.good();
+		return valid_ && is.good();
 	}
 	bool mono()
 	{
-- 
2.43.0


From e5767540876e43ba0fa1ec71d9a333aa7c670f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:12:55 +0000
Subject: [PATCH 08/13] fix: reject Netpbm headers that ReadPNM cannot decode

Maximum values above 255 use two bytes per sample, but read() takes one
byte per sample and returned garbage while good() stayed true. A maximum
value of zero led to a division by zero.
---
 netpbm.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/netpbm.hh b/netpbm.hh
index 74e932b..ee1d979 100644
--- a/netpbm.hh
+++ b/netpbm.hh
@@ -71,6 +71,8 @@ public:
 		}
 		if (!space(c))
 			return;
+		if (num[0] < 1 || num[1] < 1 || num[2] < 1 || num[2] > 255)
+			return;
 		width_ = num[0];
 		height_ = num[1];
 		maxval_ = num[2];
-- 
2.43.0


From daf7cbd5f256b9e9a0a4079d649832445e4e7b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:17:27 +0000
Subject: [PATCH 09/13] fix: take the WAV header size from the format chunk,
 not the sample size

A file with a 16-byte format chunk and 32-bit samples, or with an 18-byte
one, a fact chunk and integer samples, has a header of 44 or 58 bytes. The
reader assumed the other size and rejected the file as inconsistent.
---
 wav.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wav.hh b/wav.hh
index cbe52e2..c3c051d 100644
--- a/wav.hh
+++ b/wav.hh
@@ -104,7 +104,7 @@ public:
 		if (cmp4("data", Subchunk2ID))
 			return;
 		int Subchunk2Size = readLE(4);
-		int overhead = bits_ == 32 ? 58 : 44;
+		int overhead = Subchunk1Size == 18 ? 58 : 44;
 		if (Subchunk2Size <= 0 || ChunkSize <= 0) {
 			frames_ = -1;
 		} else {
-- 
2.43.0


From 7862a5fdfc3b1df5e02916e49590439923848b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:20:58 +0000
Subject: [PATCH 10/13] fix: decode sRGB codes just above the linear segment
 with the power law

Rounding the border of the linear segment to the nearest code put the first
code above it into the segment for some maximum values, 13 for example, where
it was decoded to a value 12 percent too dark.
---
 netpbm.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/netpbm.hh b/netpbm.hh
index ee1d979..bd40c9f 100644
--- a/netpbm.hh
+++ b/netpbm.hh
@@ -20,7 +20,7 @@ class ReadPNM : public ReadPEL<TYPE>
 
 	TYPE linear(int val)
 	{
-		int K0 = std::nearbyint(0.04045 * maxval_);
+		int K0 = 0.04045 * maxval_;
 		TYPE phi(12.92 * maxval_), a(0.055 * maxval_), gamma(2.4);
 		return val <= K0 ? val / phi : std::pow((val + a) / (maxval_ + a), gamma);
 	}
-- 
2.43.0


From 55ecc43347c4d8082999c1dd0e0bb30df86332b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:22:31 +0000
Subject: [PATCH 11/13] fix: reject Netpbm headers with numbers too big for an
 int

The digits of such numbers overflowed the sum, and a wrapped size could be
reported as good.
---
 netpbm.hh | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/netpbm.hh b/netpbm.hh
index bd40c9f..5015fb0 100644
--- a/netpbm.hh
+++ b/netpbm.hh
@@ -66,8 +66,11 @@ public:
 					while (is.good() && !newline(is.get()));
 			while (space(c))
 				c = is.get();
-			for (num[i] = 0; digit(c); c = is.get())
+			for (num[i] = 0; digit(c); c = is.get()) {
+				if (num[i] > 214748363)
+					return;
 				num[i] = 10 * num[i] + value(c);
+			}
 		}
 		if (!space(c))
 			return;
-- 
2.43.0


From 479522e244c78fb6b51d4addb097b818940f653d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:23:13 +0000
Subject: [PATCH 12/13] fix: skip comments anywhere in the white space of
 Netpbm headers

Only comments directly after a single newline were skipped, those after a
blank, a tab or an empty line made the header unreadable.
---
 netpbm.hh | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/netpbm.hh b/netpbm.hh
index 5015fb0..9f98ca8 100644
--- a/netpbm.hh
+++ b/netpbm.hh
@@ -61,11 +61,9 @@ public:
 			return;
 		int num[3];
 		for (int i = 0; i < 3; ++i) {
-			if (newline(c))
-				for (c = is.get(); c == '#'; c = is.get())
+			for (; space(c) || c == '#'; c = is.get())
+				if (c == '#')
 					while (is.good() && !newline(is.get()));
-			while (space(c))
-				c = is.get();
 			for (num[i] = 0; digit(c); c = is.get()) {
 				if (num[i] > 214748363)
 					return;
-- 
2.43.0


From eb29d0e9b94b3f917574583556db651b8fe5221d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:30:12 +0000
Subject: [PATCH 13/13] fix: avoid integer overflow in the checks of the WAV
 header

A header with a large rate made the byte rate check overflow, so that
an inconsistent header could pass it.
---
 wav.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wav.hh b/wav.hh
index c3c051d..4606812 100644
--- a/wav.hh
+++ b/wav.hh
@@ -84,7 +84,7 @@ public:
 		bytes = bits_ / 8;
 		if (bytes * channels_ != BlockAlign)
 			return;
-		if (rate_ * bytes * channels_ != ByteRate)
+		if ((long long)rate_ * bytes * channels_ != ByteRate)
 			return;
 		if (Subchunk1Size == 18) {
 			int ExtSize = readLE(2);
@@ -108,7 +108,7 @@ public:
 		if (Subchunk2Size <= 0 || ChunkSize <= 0) {
 			frames_ = -1;
 		} else {
-			if (Subchunk2Size + overhead - 8 != ChunkSize)
+			if (Subchunk2Size != ChunkSize - (overhead - 8))
 				return;
 			if (Subchunk1Size == 16)
 				frames_ = Subchunk2Size / (bytes * channels_);
-- 
2.43.0

