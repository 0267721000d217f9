From d030ff46d48c7c1cabd501573747063bf05377a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:48 +0000
Subject: [PATCH 001/121] fix: pass the full series length to the Burg
 recursion

---
 src/ctsa.c    | 8 ++++----
 src/initest.c | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index adb666d..226af0b 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -2187,7 +2187,7 @@ void ar_exec(ar_object obj, double *inp) {
 	}
 	else if (obj->method == 1) {
 		obj->mean = mean(inp, N);
-		burgalg(inp, N - 1, p, obj->params, &obj->var);
+		burgalg(inp, N, p, obj->params, &obj->var);
 	}
 
 	obj->order = obj->p;
@@ -2338,7 +2338,7 @@ void ar(double *inp, int N, int p,int method,double *phi,double *var) {
 		ywalg2(inp, N, p, phi,var);
 	}
 	else if (method == 1) {
-		burgalg(inp, N - 1, p, phi, var);
+		burgalg(inp, N, p, phi, var);
 	}
 	else if (method == 2) {
 		resid = (double*)malloc(sizeof(double)* N);
@@ -4100,7 +4100,7 @@ int ar_estimate(double *x, int N, int method) {
 			ywalg2(inp, N, i + 1, phi, &var);
 		}
 		else if (method == 1) {
-			burgalg(inp, N-1, i + 1, phi, &var);
+			burgalg(inp, N, i + 1, phi, &var);
 		}
 		else if (method == 2) {
 			as154(inp, N, 7, i + 1, 0, 0, phi, NULL, &wmean, &var, resid, &loglik, hess,cssml);
@@ -4390,7 +4390,7 @@ void yw(double *x, int N, int p, double *phi, double *var) {
 }
 
 void burg(double *x, int N, int p, double *phi, double *var) {
-	burgalg(x, N-1, p, phi, var);
+	burgalg(x, N, p, phi, var);
 }
 
 void hr(double *x, int N, int p, int q, double *phi, double *theta, double *var) {
diff --git a/src/initest.c b/src/initest.c
index 068523b..27370bd 100644
--- a/src/initest.c
+++ b/src/initest.c
@@ -437,7 +437,7 @@ void pacf_burg(double* vec, int N, double* par, int M) {
 
 	temp = (double*)malloc(sizeof(double)* M);
 	for (i = 0; i < M; ++i) {
-		burgalg(vec, N-1, i + 1, temp, &var);
+		burgalg(vec, N, i + 1, temp, &var);
 		par[i] = temp[i];
 	}
 	free(temp);
-- 
2.43.0


From abe6ef3af0d14781e7c654cc6425f2b0521d3592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:48 +0000
Subject: [PATCH 002/121] fix: ar_estimate starts the order search from the
 criterion of order 1

---
 src/ctsa.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index 226af0b..a312e3f 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -4114,7 +4114,7 @@ int ar_estimate(double *x, int N, int method) {
 		lvar = log(var);
 		aic = lvar + 2 * (double)(i + 1) / N;
 		if (i == 0) {
-			aic = aic0;
+			aic0 = aic;
 			p = 1;
 		}
 		else {
-- 
2.43.0


From e3c3f71d7521d03d2a60aec574755af3c9b806f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:48 +0000
Subject: [PATCH 003/121] fix: model_estimate works on the differenced series
 when d > 0

---
 src/ctsa.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index a312e3f..fdb059e 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -4184,18 +4184,19 @@ void model_estimate(double *x, int N, int d, int pmax, int h) {
 	if (d > 0) {
 		N = diff(x, N, d, inp); // No need to demean x
 	}
+	else {
+		wmean = mean(x, N);
+
+		for (i = 0; i < N; ++i) {
+			inp[i] = x[i] - wmean;
+		}
+	}
 
 	m = h;
 
 	phim = (double*)malloc(sizeof(double)* m);
 	a = (double*)malloc(sizeof(double)* N);
 
-	wmean = mean(x, N);
-
-	for (i = 0; i < N; ++i) {
-		inp[i] = x[i] - wmean;
-	}
-
 	// Estimate AR(m) coefficients
 
 	ywalg(inp, N, m, phim);
-- 
2.43.0


From 2fa9047f8f7f109abc716f9e78c0c1e8f1bb639f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:59 +0000
Subject: [PATCH 004/121] fix: ar_exec demeans the series before the Burg fit,
 as ar_predict assumes

---
 src/ctsa.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index fdb059e..97d0e0f 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -2163,9 +2163,9 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 }
 
 void ar_exec(ar_object obj, double *inp) {
-	int p, N;
+	int p, N, i;
 	double loglik;
-	double *hess;
+	double *hess,*x;
 	N = obj->N;
 
 	obj->p = ar_estimate(inp, N, obj->method);
@@ -2187,7 +2187,12 @@ void ar_exec(ar_object obj, double *inp) {
 	}
 	else if (obj->method == 1) {
 		obj->mean = mean(inp, N);
-		burgalg(inp, N, p, obj->params, &obj->var);
+		x = (double*)malloc(sizeof(double)* N);
+		for (i = 0; i < N; ++i) {
+			x[i] = inp[i] - obj->mean;
+		}
+		burgalg(x, N, p, obj->params, &obj->var);
+		free(x);
 	}
 
 	obj->order = obj->p;
-- 
2.43.0


From af16fcbd5d66110ecd817857ab2cacbd2a96488b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:53 +0000
Subject: [PATCH 005/121] fix: ar_exec stores MLE residuals where the object's
 res field points

---
 src/ctsa.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index 97d0e0f..6432220 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -2175,7 +2175,7 @@ void ar_exec(ar_object obj, double *inp) {
 
 	if (obj->method == 2) {
 		hess = (double*)malloc(sizeof(double)* (p + 1) * (p + 1));
-		obj->retval = as154(inp, obj->N, obj->optmethod, obj->p, 0, 0 , obj->params, NULL, &obj->mean, &obj->var, obj->params + p, &loglik,
+		obj->retval = as154(inp, obj->N, obj->optmethod, obj->p, 0, 0 , obj->params, NULL, &obj->mean, &obj->var, obj->res, &loglik,
 			hess,cssml);
 		loglik = -0.5 * (N * (2 * loglik + 1.0 + log(2 * 3.14159)));
 		obj->aic = -2.0 * loglik + 2.0 * (obj->p + 1) + 2.0;
-- 
2.43.0


From 472683203db770df1d888bf770557e57f746a365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:55 +0000
Subject: [PATCH 006/121] fix: the first observation of an AR(1) model enters
 the exact likelihood with its stationary variance

---
 src/emle.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/emle.c b/src/emle.c
index cf21961..a6759b5 100644
--- a/src/emle.c
+++ b/src/emle.c
@@ -1416,7 +1416,7 @@ double fas154(double *b,int pq,void *params) {
 		}
 	}
 
-	iupd = 0;
+	iupd = 1;
 
 	if (ip == 1 && iq == 0) {
 		*V = 1.0;
@@ -1424,7 +1424,6 @@ double fas154(double *b,int pq,void *params) {
 		*P = 1.0 / (1.0 - phi[0] * phi[0]);
 	}
 	else {
-		iupd = 1;
 		ifault = starma(ip, iq, phi, theta, A, P, V);
 	}
 	
@@ -2655,7 +2654,7 @@ double fas154_seas(double *b, int pq, void *params) {
 	
 	//mdisplay(phi, 1, ir);
 	//mdisplay(theta, 1, ir);
-	iupd = 0;
+	iupd = 1;
 	//mdisplay(b, 1, pq);
 
 	if (ip == 1 && iq == 0) {
@@ -2664,7 +2663,6 @@ double fas154_seas(double *b, int pq, void *params) {
 		*P = 1.0 / (1.0 - phi[0] * phi[0]);
 	}
 	else {
-		iupd = 1;
 		ifault = starma(ip, iq, phi, theta, A, P, V);
 	}
 
@@ -2982,7 +2980,7 @@ double fas154x_seas(double *b, int pq, void *params) {
 		}
 	}
 	
-	iupd = 0;
+	iupd = 1;
 
 	if ((ip == 1 && iq == 0) || (ip == 0 && iq == 0)) {
 		*V = 1.0;
@@ -2990,7 +2988,6 @@ double fas154x_seas(double *b, int pq, void *params) {
 		*P = 1.0 / (1.0 - phi[0] * phi[0]);
 	}
 	else {
-		iupd = 1;
 		ifault = starma(ip, iq, phi, theta, A, P, V);
 	}
 
-- 
2.43.0


From 6d024d02369adc100c2e4d2ec8d67d7c886444d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:55 +0000
Subject: [PATCH 007/121] fix: initialise the filter for models without AR and
 MA terms in ARIMA and SARIMA MLE

---
 src/emle.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/emle.c b/src/emle.c
index a6759b5..e77172d 100644
--- a/src/emle.c
+++ b/src/emle.c
@@ -1418,7 +1418,7 @@ double fas154(double *b,int pq,void *params) {
 
 	iupd = 1;
 
-	if (ip == 1 && iq == 0) {
+	if ((ip == 1 && iq == 0) || (ip == 0 && iq == 0)) {
 		*V = 1.0;
 		*A = 0.0;
 		*P = 1.0 / (1.0 - phi[0] * phi[0]);
@@ -2657,7 +2657,7 @@ double fas154_seas(double *b, int pq, void *params) {
 	iupd = 1;
 	//mdisplay(b, 1, pq);
 
-	if (ip == 1 && iq == 0) {
+	if ((ip == 1 && iq == 0) || (ip == 0 && iq == 0)) {
 		*V = 1.0;
 		*A = 0.0;
 		*P = 1.0 / (1.0 - phi[0] * phi[0]);
-- 
2.43.0


From 7d9e2980103e4b7fd93e3bd09b272277cea426b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:55 +0000
Subject: [PATCH 008/121] fix: ARIMA CSS returns all residuals when d > 0

---
 src/emle.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emle.c b/src/emle.c
index e77172d..973c85b 100644
--- a/src/emle.c
+++ b/src/emle.c
@@ -1351,7 +1351,7 @@ int css(double *inp, int N, int optmethod, int p, int d, int q, double *phi, dou
 	}
 	*/
 	*var = (obj->ssq) / (double)N;
-	for (i = 0; i < N - d; ++i) {
+	for (i = 0; i < N; ++i) {
 		resid[i] = obj->x[N+i];
 	}
 	*loglik = obj->loglik;
-- 
2.43.0


From e78563bcadf7b19f4bd392415ac2084f72a8ebf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:55 +0000
Subject: [PATCH 009/121] fix: CSS covariance matrices scale the Hessian by the
 differenced length once

---
 src/emle.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/emle.c b/src/emle.c
index 973c85b..4659218 100644
--- a/src/emle.c
+++ b/src/emle.c
@@ -1319,7 +1319,7 @@ int css(double *inp, int N, int optmethod, int p, int d, int q, double *phi, dou
 	mtranspose(hess, pq, pq, thess);
 
 	for (i = 0; i < pq*pq; ++i) {
-		thess[i] = (N - d) * 0.5 * (hess[i] + thess[i]);
+		thess[i] = N * 0.5 * (hess[i] + thess[i]);
 	}
 
 
@@ -2138,7 +2138,7 @@ int css_seas(double *inp, int N, int optmethod, int p, int d, int q, int s, int
 	mtranspose(hess, pq, pq, thess);
 
 	for (i = 0; i < pq*pq; ++i) {
-		thess[i] = (N - d - s*D) * 0.5 * (hess[i] + thess[i]);
+		thess[i] = N * 0.5 * (hess[i] + thess[i]);
 	}
 
 
@@ -2523,7 +2523,7 @@ int cssx(double *inp, int N, double *xreg, int optmethod, int p, int d, int q, i
 	mtranspose(hess, pq, pq, thess);
 
 	for (i = 0; i < pq*pq; ++i) {
-		thess[i] = (N - d - s*D) * 0.5 * (hess[i] + thess[i]);
+		thess[i] = N * 0.5 * (hess[i] + thess[i]);
 	}
 
 
-- 
2.43.0


From 1a94901353a406ca6afae59f5f9614139a5eee98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:55 +0000
Subject: [PATCH 010/121] fix: cssx clears the MA and seasonal starting values
 themselves, not memory behind them

---
 src/emle.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/emle.c b/src/emle.c
index 4659218..db91f28 100644
--- a/src/emle.c
+++ b/src/emle.c
@@ -2327,13 +2327,13 @@ int cssx(double *inp, int N, double *xreg, int optmethod, int p, int d, int q, i
 			phi[i] = 0.0;
 		}
 		for (i = 0; i < q; ++i) {
-			theta[p + i] = 0.0;
+			theta[i] = 0.0;
 		}
 		for (i = 0; i < P; ++i) {
-			PHI[p + q + i] = 0.0;
+			PHI[i] = 0.0;
 		}
 		for (i = 0; i < Q; ++i) {
-			THETA[p + q + P + i] = 0.0;
+			THETA[i] = 0.0;
 		}
 	}
 
-- 
2.43.0


From 61d8586c3ce06b9a3568dfbcb155c9ca14b2bf14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:55 +0000
Subject: [PATCH 011/121] fix: forkal forecasts models without AR and MA terms

---
 src/emle.c | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/emle.c b/src/emle.c
index db91f28..5ff0a6a 100644
--- a/src/emle.c
+++ b/src/emle.c
@@ -837,9 +837,6 @@ C*/
 	if (iq < 0) {
 		ifault = ifault + 2;
 	}
-	if (ip*ip + iq*iq == 0) {
-		ifault = 4;
-	}
 	if (id < 0) {
 		ifault = 8;
 	}
-- 
2.43.0


From 146cc4697addcb7eb7948fb9522bcd7a58c6038a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:15 +0000
Subject: [PATCH 012/121] fix: predict functions no longer read N residuals
 from a buffer that holds fewer

---
 src/ctsa.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index 6432220..b886e52 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -2237,7 +2237,7 @@ void arima_predict(arima_object obj,double *inp, int L,double *xpred,double *ams
 		if (d == 0) {
 			W[i] -= wmean;
 		}
-		resid[i] = obj->res[i];
+		resid[i] = 0.0; // recomputed by forkal
 	}
 	for (i = 0; i < ir; ++i) {
 		phi[i] = theta[i] = 0.0;
@@ -2301,7 +2301,7 @@ void ar_predict(ar_object obj, double *inp, int L, double *xpred, double *amse)
 		if (d == 0) {
 			W[i] -= wmean;
 		}
-		resid[i] = obj->res[i];
+		resid[i] = 0.0; // recomputed by forkal
 	}
 	for (i = 0; i < ir; ++i) {
 		phi[i] = theta[i] = 0.0;
@@ -2860,7 +2860,7 @@ void sarima_predict(sarima_object obj, double *inp, int L, double *xpred, double
 		if (d == 0 && D == 0) {
 			W[i] -= wmean;
 		}
-		resid[i] = obj->res[i];
+		resid[i] = 0.0; // recomputed by forkal
 	}
 	for (i = 0; i < ir; ++i) {
 		phi[i] = theta[i] = 0.0;
@@ -2967,7 +2967,7 @@ void sarimax_predict(sarimax_object obj, double *inp, double *xreg, int L,double
 				W[i] -= obj->exog[j] * xreg[j*N+i];
 			}
 		}
-		resid[i] = obj->res[i];
+		resid[i] = 0.0; // recomputed by forkal
 	}
 	for (i = 0; i < ir; ++i) {
 		phi[i] = theta[i] = 0.0;
@@ -3085,7 +3085,7 @@ void auto_arima_predict(auto_arima_object obj, double *inp, double *xreg, int L,
 				W[i] -= obj->exog[j] * xreg[(j-diter)*N+i];
 			}
 		}
-		resid[i] = obj->res[i];
+		resid[i] = 0.0; // recomputed by forkal
 	}
 	for (i = 0; i < ir; ++i) {
 		phi[i] = theta[i] = 0.0;
@@ -3208,7 +3208,7 @@ void sarimax_wrapper_predict(sarimax_wrapper_object obj, double *inp, double *xr
 				W[i] -= obj->sarimax->exog[j] * xreg[(j-diter)*N+i];
 			}
 		}
-		resid[i] = obj->sarimax->res[i];
+		resid[i] = 0.0; // recomputed by forkal
 	}
 	for (i = 0; i < ir; ++i) {
 		phi[i] = theta[i] = 0.0;
-- 
2.43.0


From 525d80dd368cf82831706581ad897db04a5463c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:37 +0000
Subject: [PATCH 013/121] fix: auto_arima_predict applies every regressor when
 the model has a drift term

---
 src/ctsa.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index b886e52..9620ba4 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -3081,7 +3081,7 @@ void auto_arima_predict(auto_arima_object obj, double *inp, double *xreg, int L,
 			W[i] -= obj->exog[0]*(i+1);
 		}
 		if (obj->r > 0) {
-			for(j = diter; j < obj->r;++j) {
+			for(j = diter; j < obj->r + diter;++j) {
 				W[i] -= obj->exog[j] * xreg[(j-diter)*N+i];
 			}
 		}
@@ -3120,7 +3120,7 @@ void auto_arima_predict(auto_arima_object obj, double *inp, double *xreg, int L,
 		if (obj->idrift == 1) {
 			xpred[i] += obj->exog[0]*(i+1+N);
 		}
-		for(j = diter; j < obj->r;++j) {
+		for(j = diter; j < obj->r + diter;++j) {
 			xpred[i] += obj->exog[j] * newxreg[(j - diter)*L+i];
 		}
 	}
-- 
2.43.0


From 2c5b150c6428f82455b8fd3b9ff507bf275243f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:56 +0000
Subject: [PATCH 014/121] fix: sarimax covariance Hessian steps scale with the
 regressor's standard error, not its inverse

---
 src/emle.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/emle.c b/src/emle.c
index 5ff0a6a..08c0675 100644
--- a/src/emle.c
+++ b/src/emle.c
@@ -1852,7 +1852,7 @@ int as154x(double *inp, int N, double *xreg, int optmethod, int p, int d, int q,
 	}
 
 	for(i = 0; i < ncxreg; ++i) {
-		dx[pq - ncxreg + i] = sigma[i];
+		dx[pq - ncxreg + i] = sigma[i] > 0.0 ? 1.0 / sigma[i] : 1.0; // dx is the inverse of the typical size
 	}
 
 	hessian_fd(&as154_min, tf, pq, dx, obj->eps, hess);
@@ -2511,7 +2511,7 @@ int cssx(double *inp, int N, double *xreg, int optmethod, int p, int d, int q, i
 	}
 	
 	for(i = 0; i < ncxreg; ++i) {
-		dx[pq - ncxreg + i] = sigma[i];
+		dx[pq - ncxreg + i] = sigma[i] > 0.0 ? 1.0 / sigma[i] : 1.0; // dx is the inverse of the typical size
 	}
 	
 
-- 
2.43.0


From 9e5f47dcb7f76eb7d91b49793185a042b7c9bea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:53 +0000
Subject: [PATCH 015/121] fix: SARIMA fits and SARIMAX CSS fits store the
 residuals they report

---
 src/ctsa.c |  6 +++---
 src/emle.c | 19 ++++++++++++++-----
 src/emle.h |  6 +++---
 3 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index 9620ba4..ef8b13f 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -396,7 +396,7 @@ void sarimax_exec(sarimax_object obj, double *inp,double *xreg)  {
 		obj->aic = -2.0 * obj->loglik + 2.0 * (obj->p + obj->q + obj->P + obj->Q + obj->M) + 2.0;
 	} else if (obj->method == 2) {
 		obj->retval = cssx(inp, obj->N, xreg, obj->optmethod, obj->p, obj->d, obj->q, obj->s, obj->P, obj->D, obj->Q, obj->params, obj->params + p, obj->params + p + q, 
-			obj->params + p + q + P,obj->params + p + q + P + Q, obj->r, &obj->mean, &obj->var,&obj->loglik, obj->params + p + q + P + Q + M + N - d - s*D,obj->start,
+			obj->params + p + q + P,obj->params + p + q + P + Q, obj->r, &obj->mean, &obj->var,obj->params + p + q + P + Q + M,&obj->loglik, obj->params + p + q + P + Q + M + N - d - s*D,obj->start,
 			obj->imean);
 		//mdisplay(obj->vcov,p+q+P+Q+M,p+q+P+Q+M);
 		obj->loglik = -0.5 * (obj->Nused * (2 * obj->loglik + 1.0 + log(2 * 3.14159)));
@@ -542,13 +542,13 @@ void sarima_exec(sarima_object obj, double *inp) {
 
 	if (obj->method == 0) {
 		obj->retval = as154_seas(inp, obj->N, obj->optmethod, obj->p, obj->d, obj->q, obj->s, obj->P, obj->D, obj->Q, obj->params, obj->params + p, obj->params + p + q, 
-			obj->params + p + q + P, &obj->mean, &obj->var, &obj->loglik, obj->params + p + q + P + Q + N - d - s*D,obj->cssml);
+			obj->params + p + q + P, &obj->mean, &obj->var, obj->params + p + q + P + Q, &obj->loglik, obj->params + p + q + P + Q + N - d - s*D,obj->cssml);
 		obj->loglik = -0.5 * (obj->Nused * (2 * obj->loglik + 1.0 + log(2 * 3.14159)));
 		obj->aic = -2.0 * obj->loglik + 2.0 * (obj->p + obj->q + obj->P + obj->Q + obj->M) + 2.0;
 	}
 	else if (obj->method == 1) {
 		obj->retval = css_seas(inp, obj->N, obj->optmethod, obj->p, obj->d, obj->q, obj->s, obj->P, obj->D, obj->Q, obj->params, obj->params + p, obj->params + p + q,
-			obj->params + p + q + P, &obj->mean, &obj->var, &obj->loglik, obj->params + p + q + P + Q + N - d - s*D);
+			obj->params + p + q + P, &obj->mean, &obj->var, obj->params + p + q + P + Q, &obj->loglik, obj->params + p + q + P + Q + N - d - s*D);
 		obj->loglik = -0.5 * (obj->Nused * (2 * obj->loglik + 1.0 + log(2 * 3.14159)));
 	}
 	else if (obj->method == 2) {
diff --git a/src/emle.c b/src/emle.c
index 08c0675..bd38ff2 100644
--- a/src/emle.c
+++ b/src/emle.c
@@ -1637,7 +1637,7 @@ int as154x(double *inp, int N, double *xreg, int optmethod, int p, int d, int q,
 	nd = d + D;
 
 	if (cssml == 1) {
-		ERR = cssx(inp, N, xreg, optmethod, p, d, q, s, P, D, Q, phi, theta, PHI, THETA,exog,r, wmean, var, loglik, hess,start,imean);
+		ERR = cssx(inp, N, xreg, optmethod, p, d, q, s, P, D, Q, phi, theta, PHI, THETA,exog,r, wmean, var, resid, loglik, hess,start,imean);
 
 		if ( ERR != 1) return ERR;
 
@@ -2028,7 +2028,7 @@ double fcss_seas(double *b, int pq, void *params) {
 }
 
 int css_seas(double *inp, int N, int optmethod, int p, int d, int q, int s, int P, int D, int Q,
-	double *phi, double *theta, double *PHI, double *THETA, double *wmean, double *var,double *loglik,double *hess) {
+	double *phi, double *theta, double *PHI, double *THETA, double *wmean, double *var,double *resid,double *loglik,double *hess) {
 	int i, pq, retval, length, offset,ret;
 	double *b, *tf, *x, *inp2,*dx,*thess;
 	int *ipiv;
@@ -2169,6 +2169,9 @@ int css_seas(double *inp, int N, int optmethod, int p, int d, int q, int s, int
 	}*/
 
 	*var = (obj->ssq) / (double)N;
+	for (i = 0; i < N; ++i) {
+		resid[i] = obj->x[offset + N + i];
+	}
 	*loglik = obj->loglik;
 	//printf("MEAN %g \n", mean(obj->x+N,N));
 	//mdisplay(obj->x + N, 1, N);
@@ -2302,7 +2305,7 @@ double fcssx(double *b, int pq, void *params) {
 }
 
 int cssx(double *inp, int N, double *xreg, int optmethod, int p, int d, int q, int s, int P, int D, int Q,
-	double *phi, double *theta, double *PHI, double *THETA,  double *exog, int r, double *wmean, double *var,double *loglik,double *hess,int start,int imean) {
+	double *phi, double *theta, double *PHI, double *THETA,  double *exog, int r, double *wmean, double *var,double *resid,double *loglik,double *hess,int start,int imean) {
 	int i, pq, retval, length, offset,ret,nd,ncxreg,N1,rnk,orig,ERR;
 	double *b, *tf, *x, *inp2,*dx,*thess,*x0,*XX,*U,*V,*SIG,*coeff,*sigma,*varcovar,*res;
 	int *ipiv;
@@ -2562,6 +2565,9 @@ int cssx(double *inp, int N, double *xreg, int optmethod, int p, int d, int q, i
 
 	*var = (obj->ssq) / (double) obj->Nmncond;
 	//*var = (obj->ssq) / (double) N;
+	for (i = 0; i < N; ++i) {
+		resid[i] = obj->x[offset + N + i];
+	}
 	*loglik = obj->loglik;
 	
 	free(b);
@@ -2683,7 +2689,7 @@ double fas154_seas(double *b, int pq, void *params) {
 }
 
 int as154_seas(double *inp, int N, int optmethod, int p, int d, int q, int s, int P, int D, int Q,double *phi, double *theta, 
-	double *PHI, double *THETA, double *wmean,double *var,double *loglik,double *hess,int cssml) {
+	double *PHI, double *THETA, double *wmean,double *var,double *resid,double *loglik,double *hess,int cssml) {
 	int i, pq, retval, length, offset,ret,nd,rp,ERR;
 	double *b, *tf, *x,*inp2,*dx,*thess,*res,*varcovar;
 	int *ipiv;
@@ -2702,7 +2708,7 @@ int as154_seas(double *inp, int N, int optmethod, int p, int d, int q, int s, in
 	sigma = 1.0;
 
 	if (cssml == 1) {
-		css_seas(inp, N, optmethod, p, d, q, s, P, D, Q, phi, theta, PHI, THETA, wmean, var, loglik, hess);
+		css_seas(inp, N, optmethod, p, d, q, s, P, D, Q, phi, theta, PHI, THETA, wmean, var, resid, loglik, hess);
 
 		ERR = checkroots_cerr(phi, &p, theta, &q, PHI, &P, THETA, &Q);
 		if (ERR == 10 || ERR == 12) return ERR;
@@ -2876,6 +2882,9 @@ int as154_seas(double *inp, int N, int optmethod, int p, int d, int q, int s, in
 	}
 
 	*var = (obj->ssq) / (double) N;
+	for (i = 0; i < N; ++i) {
+		resid[i] = obj->x[offset + N + i];
+	}
 	*loglik = obj->loglik;
 	//printf("MEAN %g \n", mean(obj->x+N,N));
 	//mdisplay(obj->x + N, 1, N);
diff --git a/src/emle.h b/src/emle.h
index 9f9d2f3..c5f3920 100644
--- a/src/emle.h
+++ b/src/emle.h
@@ -174,12 +174,12 @@ int css(double *inp, int N, int optmethod, int p, int d, int q, double *phi, dou
 double fcss_seas(double *b, int pq, void *params);
 
 int css_seas(double *inp, int N, int optmethod, int p, int d, int q, int s, int P, int D, int Q,
-	double *phi, double *theta, double *PHI, double *THETA, double *wmean, double *var,double *loglik,double *hess);
+	double *phi, double *theta, double *PHI, double *THETA, double *wmean, double *var,double *resid,double *loglik,double *hess);
 
 double fcssx(double *b, int pq, void *params);
 
 int cssx(double *inp, int N, double *xreg, int optmethod, int p, int d, int q, int s, int P, int D, int Q,
-	double *phi, double *theta, double *PHI, double *THETA,  double *exog, int r, double *wmean, double *var,double *loglik,double *hess,int start,int imean);
+	double *phi, double *theta, double *PHI, double *THETA,  double *exog, int r, double *wmean, double *var,double *resid,double *loglik,double *hess,int start,int imean);
 
 double fas154(double *x, int N, void *params);
 
@@ -195,7 +195,7 @@ double fas154_seas(double *b, int pq, void *params);
 void checkroots(double *phi, int *p, double *theta, int *q, double *PHI, int *P, double *THETA, int *Q);
 
 int as154_seas(double *inp, int N, int optmethod, int p, int d, int q, int s, int P, int D, int Q,double *phi, double *theta, 
-	double *PHI, double *THETA, double *wmean, double *var, double *loglik, double *hess, int cssml);
+	double *PHI, double *THETA, double *wmean, double *var,double *resid, double *loglik, double *hess, int cssml);
 
 int flikam(double *P, int MP, double *Q, int MQ, double *W, double *E, int N, double *ssq, double *fact, double *VW, double *VL, int MRP1, double *VK, int MR, double TOLER);
 
-- 
2.43.0


From 613a06d6d8b7b5a3034826b8d8dc67bad9a36a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:42 +0000
Subject: [PATCH 016/121] fix: collinearity test takes the regressor matrix one
 regressor per row, as stored

---
 src/ctsa.c | 2 +-
 src/emle.c | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index ef8b13f..da108d2 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -1187,7 +1187,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 	if (xreg) {
 		// Collinearity check
 
-		rnk = rank(xreg,N,r);
+		rnk = rank(xreg,r,N);
 
 		if (rnk < r) {
 			free(xx);
diff --git a/src/emle.c b/src/emle.c
index bd38ff2..d6c2368 100644
--- a/src/emle.c
+++ b/src/emle.c
@@ -1716,7 +1716,7 @@ int as154x(double *inp, int N, double *xreg, int optmethod, int p, int d, int q,
 			memcpy(XX,x0,sizeof(double)*N*ncxreg);
 		}
 
-		rnk = rank(XX,N,ncxreg);
+		rnk = rank(XX,ncxreg,N);
 
 		if (rnk < ncxreg) {
 			ERR = 7;
@@ -2399,7 +2399,7 @@ int cssx(double *inp, int N, double *xreg, int optmethod, int p, int d, int q, i
 			memcpy(XX,x0,sizeof(double)*N*ncxreg);
 		}
 
-		rnk = rank(XX,N,ncxreg);
+		rnk = rank(XX,ncxreg,N);
 
 		if (rnk < ncxreg) {
 			ERR = 7;
-- 
2.43.0


From c4863f9e59f24d512f3a7c11e4329641110f46ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:44 +0000
Subject: [PATCH 017/121] fix: BFGS skips the update when the gradient did not
 change

---
 src/secant.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/secant.c b/src/secant.c
index 6a0723b..1c2855e 100644
--- a/src/secant.c
+++ b/src/secant.c
@@ -83,7 +83,7 @@ void bfgs_naive(double *H,int N,double eps,double *xi,double *xf,double *jac,dou
 	
 	mmult(yk,sk,temp,1,N,1);
 	
-	if (temp[0] >= fd*sn*yn) {
+	if (temp[0] > 0.0 && temp[0] >= fd*sn*yn) {
 		supd = 1;
 		for(i = 0; i < N;++i) {
 			t[i] = 0.0;
@@ -364,7 +364,7 @@ void bfgs_factored(double *H,int N,double eps,double *xi,double *xf,double *jac,
 	
 	mmult(yk,sk,temp,1,N,1);
 	
-	if (temp[0] >= fd*sn*yn) {
+	if (temp[0] > 0.0 && temp[0] >= fd*sn*yn) {
 		for(i = 0; i < N;++i) {
 			t[i] = 0.0;
 			for(j = i; j < N;++j) {
-- 
2.43.0


From d9f0ceca7dbe7971030022586b5074d66c6082d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:52 +0000
Subject: [PATCH 018/121] fix: L-BFGS leaves out correction pairs without
 positive curvature

---
 src/secant.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/secant.c b/src/secant.c
index 1c2855e..c170979 100644
--- a/src/secant.c
+++ b/src/secant.c
@@ -792,7 +792,7 @@ void bfgs_rec(double *H,int N,int iter,int m,double *jac,double *sk,double *yk,d
 			temp2[k] = sk[ptr+k];
 		}
 		mmult(temp1,temp2,temp,1,N,1);
-		rho[i] = 1.0/temp[0];
+		rho[i] = (temp[0] > 0.0) ? 1.0/temp[0] : 0.0;
 		mmult(temp2,q,alpha+i,1,N,1);
 		alpha[i] *= rho[i];
 		for(k = 0; k < N; ++k) {
@@ -836,7 +836,7 @@ void inithess_l(double *H, int N, int k, double *tsk,double *tyk, double *dx) {
 	mmult(tsk, tyk, num, 1, N, 1);
 	mmult(tyk, tyk, den, 1, N, 1);
 
-	if (k > 0) {
+	if (k > 0 && num[0] > 0.0) {
 		temp = num[0] / den[0];
 	}
 	else {
-- 
2.43.0


From b64b578307d51d527d45e42aa90249b2affaf969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:35 +0000
Subject: [PATCH 019/121] fix: stepwise search refits the best model with the
 constant it was selected with

---
 src/ctsa.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index da108d2..fdb5741 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -2130,7 +2130,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 				best_ic = fit->myarima->ic;
 				memcpy(bestorder,order,sizeof(int)*3);
 				memcpy(bestseasonalorder,seasonalorder,sizeof(int)*4);
-				bestconstant = constant;
+				bestconstant = (int) results[icindex[i]*8 + 6];
 				free(icvector);
 				free(icindex);
 				myarima_free(fit->myarima);
@@ -2148,7 +2148,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 
 	// Refit The Best Model
 
-	fit->myarima = myarima(x,N,bestorder,bestseasonalorder,constant, ic, trace, iapprox, offset,xreg, r, NULL);
+	fit->myarima = myarima(x,N,bestorder,bestseasonalorder,bestconstant, ic, trace, iapprox, offset,xreg, r, NULL);
 
 	
 
-- 
2.43.0


From e89b6b1bea90cb51c21ee87280b9df5676930731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:39 +0000
Subject: [PATCH 020/121] fix: stepwise search keeps the last evaluated model
 in its list

---
 src/ctsa.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index fdb5741..002b580 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -2081,8 +2081,8 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 	
 	}
 
-	k--;
-	if (k == models) {
+	if (k > models) {
+		k = models;
 		printf("Warning : Stepwise search was stopped early due to reaching the model number limit: %d \n",models);
 	}
 
-- 
2.43.0


From 1f0db079b491078a33884cceefa980b4c1636b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:43 +0000
Subject: [PATCH 021/121] fix: auto_arima_setSeasonal(0) restricts the search
 to non-seasonal models

---
 src/ctsa.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index 002b580..9a35d1b 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -1106,6 +1106,8 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 
 	if (seasonal == NULL) {
 		iseasonal = 1;
+	} else {
+		iseasonal = *seasonal;
 	}
 
 	if (stepwise == NULL) {
@@ -1145,7 +1147,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 
 	//mdisplay(x,1,N);
 
-	if (s <= 1) {
+	if (s <= 1 || !iseasonal) {
 		m = 1;
 	} else {
 		m = s;
-- 
2.43.0


From 6d0760fda89fd8f10a398737f3015381878aed32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:46 +0000
Subject: [PATCH 022/121] fix: auto_arima_setStationary(1) restricts the search
 to undifferenced models

---
 src/ctsa.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index 9a35d1b..bdad007 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -1209,6 +1209,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 	}
 
 	D = DD == NULL ? -1 : *DD;
+	d = dd == NULL ? -1 : *dd;
 
 	if (istationary) {
 		d = D = 0;
@@ -1251,8 +1252,6 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 		}
 	}
 
-	d = dd == NULL ? -1 : *dd;
-
 	if (d == -1) {
 		d = ndiffs(dx,Nd,test_alpha,test,type,&d_max);
 
-- 
2.43.0


From ba4a13b431c7cc2ba1a06a2d5d6f449f0ad83389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:50 +0000
Subject: [PATCH 023/121] fix: auto_arima differences every regressor column

---
 src/ctsa.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index bdad007..e78f2c3 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -1246,9 +1246,11 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 
 	if (xreg) {
 		if (D > 0) {
-			diffs(xreg,N,D,s,diffxreg);
+			for(i = 0; i < r;++i) {
+				diffs(xreg+i*N,N,D,s,diffxreg+i*Nd);
+			}
 		} else {
-			memcpy(diffxreg,xreg,N*r);
+			memcpy(diffxreg,xreg,sizeof(double)*N*r);
 		}
 	}
 
-- 
2.43.0


From b9e7075e7fa8a4db18e389a28f5c2655c984b4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:53 +0000
Subject: [PATCH 024/121] fix: auto_arima tests the residuals of the regression
 on all regressors and the intercept

---
 src/ctsa.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index e78f2c3..75d1d22 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -1198,14 +1198,15 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 			exit(-1);
 		}
 
-		varcovar = (double*)malloc(sizeof(double)*r*r);
+		varcovar = (double*)malloc(sizeof(double)*(r+1)*(r+1));
 
-		reg = reg_init(N,r);
+		reg = reg_init(N,r+1);
 
 		//setIntercept(reg,0);
 		regress(reg,xreg,x,xx,varcovar,0.95);
 
 		free(varcovar);
+		free_reg(reg);
 	}
 
 	D = DD == NULL ? -1 : *DD;
-- 
2.43.0


From 34f75e39be79cba000ac5cec6dfbcb1806800792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:56 +0000
Subject: [PATCH 025/121] fix: models with drift are fitted by the requested
 method

---
 src/ctsa.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ctsa.c b/src/ctsa.c
index 75d1d22..9be9360 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -730,6 +730,7 @@ myarima_object myarima(double *x, int N, int *order, int *seasonal, int constant
 		}
 		memcpy(xreg2+N,xreg,sizeof(double)*N*(rr-1));
 		fit->sarimax = sarimax_init(p,d,q,P,D,Q,s,rr,imean,N);
+		sarimax_setMethod(fit->sarimax,rmethod);
 		sarimax_exec(fit->sarimax,x,xreg2);
 		free(xreg2);
 		//sarimax_summary(fit->sarimax);
-- 
2.43.0


From 4677f6828fb349f31ae9150c8ca033385743fcee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:00 +0000
Subject: [PATCH 026/121] fix: the root check of candidate models covers a
 single MA term

---
 src/ctsa.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index 9be9360..a54f937 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -861,7 +861,7 @@ myarima_object myarima(double *x, int N, int *order, int *seasonal, int constant
 
 		//printf(" q Q %d \n", q+Q);
 
-		if (q + Q > 1 && fit->ic < DBL_MAX) {
+		if (q + Q > 0 && fit->ic < DBL_MAX) {
 			isum = 0;
 			imx = -1;
 			for(i = 0; i < iq - 1; ++i) {
-- 
2.43.0


From 6180bf98873e12c0b48b637f34ada4bd860b335b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:04 +0000
Subject: [PATCH 027/121] fix: exhaustive search refits its choice without
 approximation

---
 src/ctsa.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index a54f937..da4d25a 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -935,6 +935,7 @@ myarima_object search_arima(double *x, int N,int d, int D, int p_max, int q_max,
 	//printf("d %d D %d p_max %d q_max %d P_max %d Q_max %d maxK %d \n",d,D,p_max,q_max,P_max,Q_max,maxK);
 
 	best_ic = DBL_MAX;
+	bestK = 0;
 
 	for(i = 0; i <= p_max; ++i) {
 		for(j = 0;j <= q_max;++j) {
@@ -987,7 +988,7 @@ myarima_object search_arima(double *x, int N,int d, int D, int p_max, int q_max,
 
 	//printf("best_ic %g \n",best_ic);
 
-	bestfit = myarima(x,N,bestorder,bestseasonal, bestK, ic, trace, approximation, offset,xreg, r, NULL);
+	bestfit = myarima(x,N,bestorder,bestseasonal, bestK, ic, trace, 0, offset,xreg, r, NULL);
 
 	if (approximation) {
 		if (bestfit->ic == DBL_MAX) {
-- 
2.43.0


From 57bbf8985b7b85d3b0fbf7c65186692387756a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:07 +0000
Subject: [PATCH 028/121] fix: exhaustive search does not override the mean
 setting

---
 src/ctsa.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index da4d25a..1f7a420 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -1417,8 +1417,6 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 		fit->otype = 1;
 		fit->Arima = NULL;
 
-		imean = 1;
-	
 		fit->myarima = search_arima(x,N,d,D,p_max,q_max,P_max,Q_max,Order_max,istationary,s,ic,iapprox,xreg,r,offset,idrift,imean,verbose,amethod);
 		free(x);
 		free(xx);
-- 
2.43.0


From 7be7f83e9d09ee47bdf356d9874b88ccb5349203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:47 +0000
Subject: [PATCH 029/121] fix: candidate models of auto_arima record whether
 they contain drift

---
 src/ctsa.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index 1f7a420..30f43ca 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -609,8 +609,9 @@ sarimax_wrapper_object sarimax_wrapper(sarimax_wrapper_object model,double *y, i
 		rr = r;
 
 		
+		obj->idrift = drift;
+
 		if (drift == 1) {
-			obj->idrift = 1;
 			rr++;
 			xreg2 = (double*)malloc(sizeof(double)*N*rr);
 			for(i = 0; i < N;++i) {
@@ -721,7 +722,9 @@ myarima_object myarima(double *x, int N, int *order, int *seasonal, int constant
 
 	rr = r;
 
-	if (diffs == 1 && constant == 1) {
+	fit->idrift = (diffs == 1 && constant == 1);
+
+	if (fit->idrift == 1) {
 		imean = 1;
 		rr++;
 		xreg2 = (double*)malloc(sizeof(double)*N*rr);
-- 
2.43.0


From 3592477cb216a52aef9e50e509ba014c1e8b6c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:05 +0000
Subject: [PATCH 030/121] fix: auto_arima_exec searches again with the period
 and drift setting of the object

---
 header/ctsa.h | 2 ++
 src/ctsa.c    | 7 +++++--
 src/ctsa.h    | 2 ++
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/header/ctsa.h b/header/ctsa.h
index 58fa9f2..ec6d808 100644
--- a/header/ctsa.h
+++ b/header/ctsa.h
@@ -76,6 +76,8 @@ struct auto_arima_set{
 	double aic;
 	double bic;
 	double aicc;
+	int period; // Seasonal period of the search (s holds the one of the selected model)
+	int allowdrift; // Whether the search may use drift (idrift tells whether the selected model does)
 	double params[0];
 };
 
diff --git a/src/ctsa.c b/src/ctsa.c
index 30f43ca..a713b7c 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -265,6 +265,7 @@ auto_arima_object auto_arima_init(int *pdqmax,int *PDQmax,int s, int r, int N) {
 	obj->qmax = qmax;
 	obj->N = N;
 	obj->s = s;
+	obj->period = s;
 	obj->Pmax = Pmax;
 	obj->Dmax = Dmax;
 	obj->Qmax = Qmax;
@@ -307,6 +308,7 @@ auto_arima_object auto_arima_init(int *pdqmax,int *PDQmax,int s, int r, int N) {
 	obj->alpha_seas = 0.05;
 	obj->imean = 1;
 	obj->idrift = 1;
+	obj->allowdrift = 1;
 
 	strcpy(obj->test,"kpss");
 	strcpy(obj->seas,"seas");
@@ -425,9 +427,9 @@ void auto_arima_exec(auto_arima_object obj, double *inp,double *xreg) {
 	start[2] = obj->P_start;
 	start[3] = obj->Q_start;
 
-	fit = auto_arima1(inp,obj->N,order,seasonal,&obj->Order_max,obj->s,NULL,NULL,start,&obj->stationary,&obj->seasonal, obj->information_criteria,
+	fit = auto_arima1(inp,obj->N,order,seasonal,&obj->Order_max,obj->period,NULL,NULL,start,&obj->stationary,&obj->seasonal, obj->information_criteria,
 	 &obj->stepwise,&obj->num_models,&obj->approximation,&obj->method,xreg,obj->r,obj->test,obj->type, &obj->alpha_test,obj->seas, &obj->alpha_seas,
-	 &obj->idrift, &obj->imean,obj->verbose, NULL);
+	 &obj->allowdrift, &obj->imean,obj->verbose, NULL);
 
 	imean = obj->imean;
 	idrift = obj->idrift;
@@ -2794,6 +2796,7 @@ void auto_arima_allowMean(auto_arima_object obj, int allowmean) {
 
 void auto_arima_allowDrift(auto_arima_object obj, int allowdrift) {
 	if (allowdrift == 0 || allowdrift == 1) {
+		obj->allowdrift = allowdrift;
 		obj->idrift = allowdrift;
 	} else {
 		printf("Allowdrift parameter accepts only two values - 0 or 1 \n");
diff --git a/src/ctsa.h b/src/ctsa.h
index c485a9f..ff539d2 100644
--- a/src/ctsa.h
+++ b/src/ctsa.h
@@ -203,6 +203,8 @@ struct auto_arima_set{
 	double aic;
 	double bic;
 	double aicc;
+	int period; // Seasonal period of the search (s holds the one of the selected model)
+	int allowdrift; // Whether the search may use drift (idrift tells whether the selected model does)
 	double params[];
 };
 
-- 
2.43.0


From 252fce050fb09af58e39023cb51011051c864091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:26 +0000
Subject: [PATCH 031/121] fix: deld and delds return the polynomial 1 when no
 differencing is asked for

---
 src/talg.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/talg.c b/src/talg.c
index 7db9a90..899c03e 100644
--- a/src/talg.c
+++ b/src/talg.c
@@ -116,6 +116,7 @@ void deld(int d, double* C) {
 	vec[0] = 1.;
 	vec[1] = -1.;
 	oup[0] = 1.;
+	C[0] = 1.;
 	// oup has length (d+1)
 	
 	for(i = 0; i < d; ++i) {
@@ -153,6 +154,7 @@ void delds(int D, int s, double *C) {
 	vec[0] = 1.0;
 	vec[s] = -1.0;
 	oup[0] = 1.0;
+	C[0] = 1.0;
 	
 	for(i = 0; i < D; ++i) {
 		poly(oup,vec,C,i*s+1,s+1);
-- 
2.43.0


From 2277ebd97489235028451c9f759ea5236aa4bc07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:31 +0000
Subject: [PATCH 032/121] fix: arma_autocovar computes all p+1 right-hand sides
 of its equations when p exceeds q

---
 src/talg.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/talg.c b/src/talg.c
index 899c03e..13760a4 100644
--- a/src/talg.c
+++ b/src/talg.c
@@ -384,8 +384,8 @@ void arma_autocovar(double *phi,double *theta,int p,int q,double var,double* aco
 		th[i+1] = theta[i];
 	}
 	
-	if (p >= q+1) {
-		m = p;
+	if (p > q) {
+		m = p + 1;
 	} else {
 		m = q + 1;
 	}
-- 
2.43.0


From 1f954de7c88a1b06401f2de07d5204d7a5c59573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:35 +0000
Subject: [PATCH 033/121] fix: archeck ignores trailing zero coefficients when
 it computes the roots

---
 src/talg.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/talg.c b/src/talg.c
index 13760a4..5f48a95 100644
--- a/src/talg.c
+++ b/src/talg.c
@@ -786,9 +786,9 @@ int archeck(int p, double *ar) {
 
 	//polyroot(double *coeff, int DEGREE, double *ZEROR, double *ZEROI)
 
-	polyroot(coeff,p,zeror,zeroi);
+	polyroot(coeff,wmax,zeror,zeroi);
 
-	for(i = 0; i < p;++i) {
+	for(i = 0; i < wmax;++i) {
 		mod = sqrt(pow(zeror[i],2.0) + pow(zeroi[i],2));
 		if (mod < 1.0) {
 			free(coeff);
-- 
2.43.0


From e7df15146cc837e1df856ed58b98abf4d8cf2342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:39 +0000
Subject: [PATCH 034/121] fix: supsmu stays inside its arrays for wide windows
 and periodic abscissae

---
 src/talg.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/talg.c b/src/talg.c
index 5f48a95..ca4c2d7 100644
--- a/src/talg.c
+++ b/src/talg.c
@@ -1257,19 +1257,21 @@ static int smooth_(int *n, double *x, double *y, double *w, double *span, int *i
 	ibw = 2;
     }
     it = (ibw << 1) + 1;
+    if (jper != 2 && it > *n) {
+	it = *n;
+    }
     i__1 = it;
     for (i__ = 1; i__ <= i__1; ++i__) {
 	j = i__;
 	if (jper == 2) {
 	    j = i__ - ibw - 1;
 	}
-	xti = x[j];
 	if (j >= 1) {
-	    goto L10;
+	    xti = x[j];
+	} else {
+	    j = *n + j;
+	    xti = x[j] - 1.0;
 	}
-	j = *n + j;
-	xti = x[j] - 1.0;
-L10:
 	wt = w[j];
 	fbo = fbw;
 	fbw += wt;
-- 
2.43.0


From 279402509218b835bd6da640b655fdf104596c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:35 +0000
Subject: [PATCH 035/121] fix: arma_autocovar keeps every coefficient of its
 Yule-Walker equations

---
 src/talg.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/talg.c b/src/talg.c
index ca4c2d7..452e832 100644
--- a/src/talg.c
+++ b/src/talg.c
@@ -394,10 +394,8 @@ void arma_autocovar(double *phi,double *theta,int p,int q,double var,double* aco
 	for(i = 0; i < p1;++i) {
 		for(j=0; j < p1;++j) {
 			A[i*p1+j] = 0.;
-			if (i == j && i != 0) {
-				A[i*p1+j] = 1.;
-			}
-
+		}
+		for(j=0; j < p1;++j) {
 			t = i - j;
 			if (t < 0) {
 				t = -t;
-- 
2.43.0


From 1ba3075d84426d5dd0b423ac3d00c6c6376108ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:06 +0000
Subject: [PATCH 036/121] fix: psd does not read past the end of a series
 shorter than the transform

---
 src/spectrum.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/spectrum.c b/src/spectrum.c
index 63985f7..6c1a1c7 100644
--- a/src/spectrum.c
+++ b/src/spectrum.c
@@ -134,7 +134,7 @@ void periodogram(spectrum_fft_object obj,double* vec,double* spec, double *freq,
 
 void psd(spectrum_fft_object obj,double* vec,double* spec, double *freq, int side) {
 	int i,N,N2,NO;
-	double m,NP;
+	double NP;
 	fft_data *inp;
 	fft_data *oup;
 	
@@ -145,7 +145,6 @@ void psd(spectrum_fft_object obj,double* vec,double* spec, double *freq, int sid
 	inp = (fft_data*) malloc (sizeof(fft_data) * N);
 	oup = (fft_data*) malloc (sizeof(fft_data) * N);
 	
-	m = mean(vec,N);
 	for (i = 0; i < NO;++i) {
 		inp[i].re = vec[i];
 		inp[i].im = 0.0;
-- 
2.43.0


From 68e6ce0b7cd568bf784cea4bdb377ba61598cc8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:32 +0000
Subject: [PATCH 037/121] fix: F test of a regression without intercept uses
 its p degrees of freedom

---
 src/regression.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/regression.c b/src/regression.c
index c27b46a..dd3a6f9 100644
--- a/src/regression.c
+++ b/src/regression.c
@@ -428,7 +428,7 @@ void linreg_multi(int p, double *xi, double *y, int N, double* b, double *sigma2
 			anv[3] = (double)p;
 			anv[4] = (double)df;
 			anv[5] = (R2[0] / anv[3]) / ((1. - R2[0]) / anv[4]);
-			anv[6] = 1.0 - fcdf(anv[5], p - 1, df);
+			anv[6] = 1.0 - fcdf(anv[5], p, df);
 		}
 		else if (p == 0) {
 			anv[1] = mss;
-- 
2.43.0


From 305291202465e62da8a4563f3ba6aa4a1f7d03e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:34 +0000
Subject: [PATCH 038/121] fix: regression on a constant alone reports an
 undefined F statistic as NaN

---
 src/regression.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/regression.c b/src/regression.c
index dd3a6f9..7d08f26 100644
--- a/src/regression.c
+++ b/src/regression.c
@@ -398,6 +398,8 @@ void linreg_multi(int p, double *xi, double *y, int N, double* b, double *sigma2
 			anv[0] = anv[1] + anv[2];
 			anv[3] = (double)p - dfi;
 			anv[4] = (double)df;
+			anv[5] = NAN;
+			anv[6] = NAN;
 		}
 		else if (p > 1) {
 			anv[1] = R2[0] * (*bt - N*ym2);
-- 
2.43.0


From 94755adda4432e82faea0289dc3590f341c13bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:36 +0000
Subject: [PATCH 039/121] fix: polynomial regression keeps the fractional part
 of the powers

---
 src/regression.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/regression.c b/src/regression.c
index 7d08f26..ff410cb 100644
--- a/src/regression.c
+++ b/src/regression.c
@@ -639,7 +639,7 @@ void regress_poly(reg_object obj, double *x, double *y, double *res, double *var
 	sum = obj->N;
 	for (i = 1; i < polydeg; ++i) {
 		for (j = 0; j < obj->N; ++j) {
-			xx[sum + j] = (int)pow((double)x[j], (double)i + 1.);
+			xx[sum + j] = pow((double)x[j], (double)i + 1.);
 		}
 		sum += obj->N;
 	}
-- 
2.43.0


From 6eaf09668bea30fbb229f71e683f1cd1a6a9b693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:38 +0000
Subject: [PATCH 040/121] fix: checkConstant compares the first two values too

---
 src/boxcox.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/boxcox.c b/src/boxcox.c
index ff8f106..75b45c8 100644
--- a/src/boxcox.c
+++ b/src/boxcox.c
@@ -8,7 +8,7 @@ int checkConstant(double *x, int N) {
 
     /// heap buffer overflow fix, since accessing x[i+1] need to 
     /// stop loop at -1 index from end of array as dictated by length defined by N
-    for(i = 1; i < N - 1;++i) {
+    for(i = 0; i < N - 1;++i) {
         diff = x[i+1] - x[i];
         if (fabs(diff) > 0) {
             return cc;
-- 
2.43.0


From d5c2297159c6e9d1782f32317006fd28a787a0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:40 +0000
Subject: [PATCH 041/121] fix: boxcox checks its input for negative values

---
 src/boxcox.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/boxcox.c b/src/boxcox.c
index 75b45c8..dbe3c10 100644
--- a/src/boxcox.c
+++ b/src/boxcox.c
@@ -111,6 +111,7 @@ double boxcox(double *x, int N,double *lambda,double *y) {
     }
 
     // Check for negative values
+    cn = checkNegative(x,N);
 
     if (cn == 1) {
         printf("Input vector cannot have negative values. Exiting. \n");
-- 
2.43.0


From 77daac27bc3357a7ad324816c25851646ee64eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:11 +0000
Subject: [PATCH 042/121] fix: unit-root tests do not overflow integer
 arithmetic for long series

---
 src/unitroot.c | 37 +++++++++++++++++++------------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/src/unitroot.c b/src/unitroot.c
index 8fa0b9e..d24f114 100644
--- a/src/unitroot.c
+++ b/src/unitroot.c
@@ -542,7 +542,7 @@ void ur_kpss(double *y, int N,const char* type,int lshort, int *klag, double *st
         s2 += (res[i] * res[i]);
     }
 
-    eta /= (double) (N*N);
+    eta /= ((double) N * (double) N);
     s2 /= (double) N;
 
     if (lshort == 1) {
@@ -588,11 +588,11 @@ void ur_pp(double *y, int N,const char* alternative,const char* type,int lshort,
     pval - p-value used to determine null hypothesis
 
     */
-    int i,j,N1,N2,p,l,pN,tN,iter;
+    int i,j,N1,p,l,pN,tN,iter;
     double *z,*yt,*yt1,*tt,*XX,*varcovar,*res,*table,*tablep;
     double at,nssqr_res,trm1,trm2,trm3,trm4,dx,alpha,s2,tstat;
     double sum_yt1,sum_yt12,sum_yt1n,interp;
-    long int N3;
+    double dN,N2,N3;
     reg_object fit;
 
     double nT[6] = {25, 50, 100, 250, 500, 100000};
@@ -606,8 +606,9 @@ void ur_pp(double *y, int N,const char* alternative,const char* type,int lshort,
      -2.64, -2.65, -2.66, -1.53, -1.66, -1.73, -1.78, -1.78, -1.79, -0.43, -0.65, -0.75, -0.82, -0.84, -0.87};// 8X6
 
     N1 = N - 1;
-    N2 = N1 * N1;
-    N3 = N2 * N1;
+    dN = (double) N1;
+    N2 = dN * dN;
+    N3 = N2 * dN;
 
     pN = 8;
     tN = 6;
@@ -681,8 +682,8 @@ void ur_pp(double *y, int N,const char* alternative,const char* type,int lshort,
 
     trm1 = N2 * (N2-1) *sum_yt12 / 12.0;
     trm2 = N1 * sum_yt1n * sum_yt1n;
-    trm3 = N1 * (N1+1) * sum_yt1n * sum_yt1;
-    trm4 = (N1 * (N1+1) * (2*N1+1) * sum_yt1 * sum_yt1) / 6.0;
+    trm3 = dN * (dN+1) * sum_yt1n * sum_yt1;
+    trm4 = (dN * (dN+1) * (2*dN+1) * sum_yt1 * sum_yt1) / 6.0;
 
     dx = trm1-trm2+trm3-trm4;
 
@@ -746,8 +747,8 @@ void ur_pp2(double *x, int N,const char* type,const char* model,int lshort, int
     */
     double *y,*y_li,*trend,*XX,*varcovar,*res,*tt,*coprods,*weights;
     int *idx;
-    int N1, lmax, i,p, N12,len,iter;
-    double N1d,at,my_tstat,beta_tstat,s,sum_res,sum_ymy,sum_y2,ymean,tstat;
+    int N1, lmax, i,p,len,iter;
+    double N12,N1d,at,my_tstat,beta_tstat,s,sum_res,sum_ymy,sum_y2,ymean,tstat;
     double myybar,myy,mty,my,sum_y,sig,lambda,lambda_prime,M,my_stat,beta_stat;
     reg_object fit;
 
@@ -766,9 +767,9 @@ void ur_pp2(double *x, int N,const char* type,const char* model,int lshort, int
     }
 
     if (!strcmp(model,"trend")) {
-        cval[0] = -3.9638-8.353/N1-47.44/(N1*N1);
-        cval[1] = -3.4126-4.039/N1-17.83/(N1*N1);
-        cval[2] = -3.1279-2.418/N1-7.58/(N1*N1);
+        cval[0] = -3.9638-8.353/N1-47.44/((double)N1*N1);
+        cval[1] = -3.4126-4.039/N1-17.83/((double)N1*N1);
+        cval[2] = -3.1279-2.418/N1-7.58/((double)N1*N1);
         cprobs[0] = 0.01;
         cprobs[1] = 0.05;
         cprobs[2] = 0.1;
@@ -816,7 +817,7 @@ void ur_pp2(double *x, int N,const char* type,const char* model,int lshort, int
         mty = 0.0;
 
         ymean = mean(y,N1);
-        N12 = N1 * N1;
+        N12 = (double) N1 * (double) N1;
 
         for(i = 0; i < N1;++i) {
             sum_res += (res[i] *res[i]);
@@ -859,7 +860,7 @@ void ur_pp2(double *x, int N,const char* type,const char* model,int lshort, int
         sig = s + 2.0 * sig / (double) N1;
         lambda = 0.5 * (sig - s);
         lambda_prime = lambda/sig;
-        M = (1-pow((double)N1, -2.0))*myy - 12*mty*mty + 12.0*(1.0 + 1.0/(double)N1)*mty*my - (4 + 6/(double)N1 + 2/(double)(N1*N1))*my*my;
+        M = (1-pow((double)N1, -2.0))*myy - 12*mty*mty + 12.0*(1.0 + 1.0/(double)N1)*mty*my - (4 + 6/(double)N1 + 2/((double)N1*N1))*my*my;
         my_stat = sqrt(s/sig)*my_tstat - lambda_prime*sqrt(sig)*my/(sqrt(M)*sqrt((M+my*my)));
         beta_stat = sqrt(s/sig)*beta_tstat - lambda_prime*sqrt(sig)*(0.5*my - mty)/(sqrt(M/12)*sqrt(myybar));
         auxstat[0] = my_stat;
@@ -888,9 +889,9 @@ void ur_pp2(double *x, int N,const char* type,const char* model,int lshort, int
         free(weights);
         free_reg(fit);
     } else if (!strcmp(model,"constant")) {
-        cval[0] = -3.4335-5.999/(double)N1-29.25/(double)(N1*N1);
-        cval[1] = -2.8621-2.738/(double)N1-8.36/(double)(N1*N1);
-        cval[2] = -2.5671-1.438/(double)N1-4.48/(double)(N1*N1);
+        cval[0] = -3.4335-5.999/(double)N1-29.25/((double)N1*N1);
+        cval[1] = -2.8621-2.738/(double)N1-8.36/((double)N1*N1);
+        cval[2] = -2.5671-1.438/(double)N1-4.48/((double)N1*N1);
         cprobs[0] = 0.01;
         cprobs[1] = 0.05;
         cprobs[2] = 0.1;
@@ -924,7 +925,7 @@ void ur_pp2(double *x, int N,const char* type,const char* model,int lshort, int
         sum_y = 0.0;
 
         ymean = mean(y,N1);
-        N12 = N1 * N1;
+        N12 = (double) N1 * (double) N1;
 
         for(i = 0; i < N1;++i) {
             sum_res += (res[i] *res[i]);
-- 
2.43.0


From 8bb9c1c8a5af03daf8d60f2eed410a210581a93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:59 +0000
Subject: [PATCH 043/121] fix: regression computes its sums of squares from
 residuals and fitted values

---
 src/regression.c | 65 +++++++++++++++++++-----------------------------
 1 file changed, 25 insertions(+), 40 deletions(-)

diff --git a/src/regression.c b/src/regression.c
index ff410cb..dc0be63 100644
--- a/src/regression.c
+++ b/src/regression.c
@@ -215,10 +215,10 @@ void linreg_multi(int p, double *xi, double *y, int N, double* b, double *sigma2
 	intercept - 1 : include intercept term. 0 : No intercept term
 	*/
 	double *x, *xt, *seb, *xb;
-	double *xxt, *yxt, *temp1, *temp2, *bt, *xxt2;
+	double *xxt, *yxt, *xxt2;
 	int i, df;
 	int *ipiv;
-	double tmp1, sum, ym, ym2, a2, ta2, intrvl, chia2, chi1a2, dfi, mss, rss;
+	double tmp1, sum, ym, a2, ta2, intrvl, chia2, chi1a2, dfi, mss, rss;
 
 	/*
 	* Matrix Based Multiple Regression
@@ -235,10 +235,7 @@ void linreg_multi(int p, double *xi, double *y, int N, double* b, double *sigma2
 	yxt = (double*)malloc(sizeof(double) * p);
 	ipiv = (int*)malloc(sizeof(int) * p);
 	//yt = (double*) malloc (sizeof(double) * N);
-	temp1 = (double*)calloc(1, sizeof(double));
-	temp2 = (double*)malloc(sizeof(double) * p);
 	seb = (double*)malloc(sizeof(double) * p);
-	bt = (double*)calloc(1, sizeof(double));
 
 	// Initalize xt matrix - Transpose Matrix is initilaized first to
 	// deal with column major nature of the X matrix
@@ -302,12 +299,19 @@ void linreg_multi(int p, double *xi, double *y, int N, double* b, double *sigma2
 
 	//mtranspose(y,N,1,yt);
 	df = N - p;
-	mmult(y, y, bt, 1, N, 1);
-	mmult(xt, y, temp2, p, N, 1);
-	mmult(b, temp2, temp1, 1, p, 1);
 
-	*sigma2 = *bt - *temp1;
-	*sigma2 /= (double)df;
+	//Residual
+	/* u = y - Xb
+	*/
+	mmult(x, b, xb, N, p, 1);
+
+	rss = 0.0;
+	for (i = 0; i < N; ++i) {
+		res[i] = y[i] - xb[i];
+		rss += (res[i] * res[i]);
+	}
+
+	*sigma2 = rss / (double)df;
 	tmp1 = *sigma2;
 
 	// Variance-Covariance Matrix of beta parameters
@@ -324,10 +328,14 @@ void linreg_multi(int p, double *xi, double *y, int N, double* b, double *sigma2
 	for (i = 0; i < N; ++i) {
 		sum += y[i];
 	}
-	ym = sum / N;
-	ym2 = ym * ym;
+	ym = intercept == 1 ? sum / N : 0.;
 
-	R2[0] = (*temp1 - N*ym2) / (*bt - N*ym2);
+	mss = 0.0;
+	for (i = 0; i < N; ++i) {
+		mss += (xb[i] - ym) * (xb[i] - ym);
+	}
+
+	R2[0] = mss / (mss + rss);
 
 	// Adjusted r^2
 
@@ -358,24 +366,6 @@ void linreg_multi(int p, double *xi, double *y, int N, double* b, double *sigma2
 	ci_lower[p] = (double)df * tmp1 / chi1a2;
 	ci_upper[p] = (double)df * tmp1 / chia2;
 
-	//Residual
-	/* u = y - Xb
-	*/
-	mmult(x, b, xb, N, p, 1);
-
-	for (i = 0; i < N; ++i) {
-		res[i] = y[i] - xb[i];
-	}
-
-
-	mss = 0.0;
-	rss = 0.0;
-
-	for (i = 0; i < N; ++i) {
-		mss += (xb[i] * xb[i]);
-		rss += (res[i] * res[i]);
-	}
-
 	// ANOVA
 
 	/*
@@ -393,8 +383,8 @@ void linreg_multi(int p, double *xi, double *y, int N, double* b, double *sigma2
 
 	if (intercept == 1) {
 		if (p == 1) {
-			anv[1] = R2[0] * (*bt - N*ym2);
-			anv[2] = (1. - R2[0]) * (*bt - N*ym2);
+			anv[1] = mss;
+			anv[2] = rss;
 			anv[0] = anv[1] + anv[2];
 			anv[3] = (double)p - dfi;
 			anv[4] = (double)df;
@@ -402,8 +392,8 @@ void linreg_multi(int p, double *xi, double *y, int N, double* b, double *sigma2
 			anv[6] = NAN;
 		}
 		else if (p > 1) {
-			anv[1] = R2[0] * (*bt - N*ym2);
-			anv[2] = (1. - R2[0]) * (*bt - N*ym2);
+			anv[1] = mss;
+			anv[2] = rss;
 			anv[0] = anv[1] + anv[2];
 			anv[3] = (double)p - dfi;
 			anv[4] = (double)df;
@@ -412,8 +402,6 @@ void linreg_multi(int p, double *xi, double *y, int N, double* b, double *sigma2
 		}
 	}
 	else {
-		R2[0] = mss / (mss + rss);
-		R2[1] = 1.0 - (1.0 - R2[0]) * ((double)N - dfi) / ((double)df);
 		if (p == 1) {
 			anv[1] = mss;
 			anv[2] = rss;
@@ -450,9 +438,6 @@ void linreg_multi(int p, double *xi, double *y, int N, double* b, double *sigma2
 	free(xxt);
 	free(xxt2);
 	free(yxt);
-	free(temp1);
-	free(temp2);
-	free(bt);
 	free(seb);
 	free(xb);
 }
-- 
2.43.0


From d732a945f576186be02dfbffa92bcb53bf11c590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:43 +0000
Subject: [PATCH 044/121] fix: mmult does not pad long thin matrices for
 Strassen multiplication

---
 src/matrix.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/matrix.c b/src/matrix.c
index 09e3ae4..33fe768 100644
--- a/src/matrix.c
+++ b/src/matrix.c
@@ -881,7 +881,9 @@ void smult(double* A, double* B, double* C,int m,int n, int p) {
 }
 
 void mmult(double* A, double* B, double* C,int m,int n, int p) {
-	if (m+n+p <= CUTOFF/2) {
+	// Strassen pads every dimension by the same power of two, so it is only
+	// worthwhile when no dimension is small compared to the cutoff.
+	if (m+n+p <= CUTOFF/2 || m < CUTOFF/4 || n < CUTOFF/4 || p < CUTOFF/4) {
 		nmult(A,B,C,m,n,p);
 	} else {
 		smult(A,B,C,m,n,p);
-- 
2.43.0


From dbcaab14c5ec0e282e09b3fdb7cb18b64a9572b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:14 +0000
Subject: [PATCH 045/121] fix: partial pivoting compares magnitudes

---
 src/matrix.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/matrix.c b/src/matrix.c
index 33fe768..68e0f69 100644
--- a/src/matrix.c
+++ b/src/matrix.c
@@ -902,7 +902,7 @@ static int pludecomp(double *A,int N,int *ipiv) {
 		mind = k;
 		for (j=k+1; j < N;++j) {
 			if (mval < fabs(A[j*N + k])) {
-				mval = A[j*N + k];
+				mval = fabs(A[j*N + k]);
 				mind = j;
 			}
 		}
@@ -955,7 +955,7 @@ int rludecomp(double *A, int M, int N, int *ipiv) {
 			mind = k;
 			for (j = k + 1; j < M; ++j) {
 				if (mval < fabs(A[j*N + k])) {
-					mval = A[j*N + k];
+					mval = fabs(A[j*N + k]);
 					mind = j;
 				}
 			}
@@ -993,7 +993,7 @@ int rludecomp(double *A, int M, int N, int *ipiv) {
 			mind = k;
 			for (j = k + 1; j < M; ++j) {
 				if (mval < fabs(A[j*N + k])) {
-					mval = A[j*N + k];
+					mval = fabs(A[j*N + k]);
 					mind = j;
 				}
 			}
-- 
2.43.0


From 21b85575154d44b423bbb892f407333fb03da224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:58 +0000
Subject: [PATCH 046/121] fix: robust STL keeps the fractional part of swapped
 residuals

---
 src/stl.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/stl.c b/src/stl.c
index af4d106..806135b 100644
--- a/src/stl.c
+++ b/src/stl.c
@@ -710,9 +710,8 @@ L300:
 int psort_(double *a, int n, int *ind, int ni)
 {
     int i__, j, k, l, m, p;
-    double t;
+    double t, tt;
     int ij, il[16], jl, iu[16], ju;
-    int tt;
     int indl[16], indu[16];
 
 
-- 
2.43.0


From bd32654b61bdc66b6cecfaac957b103cd68b077c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:59 +0000
Subject: [PATCH 047/121] fix: stl honours the trend window given by the caller

---
 src/seastest.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/seastest.c b/src/seastest.c
index 44153a0..a794a0b 100644
--- a/src/seastest.c
+++ b/src/seastest.c
@@ -220,6 +220,8 @@ void stl(double *x,int N,int f, const char *s_window_type,int *s_window, int *s_
 
     if (t_window == NULL) {
         t_window_ = nextOdd(ceil( 1.5 * f / (1.0 - 1.5 / (double) s_window_)));
+    } else {
+        t_window_ = *t_window;
     }
 
     s_degree_ = (s_degree == NULL) ? 0 : *s_degree;
-- 
2.43.0


From 156028e38abd13fc035a79cbef9a34b6e8854ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:01 +0000
Subject: [PATCH 048/121] fix: stl honours the number of outer iterations
 independently of the inner ones

---
 src/seastest.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seastest.c b/src/seastest.c
index a794a0b..cde771f 100644
--- a/src/seastest.c
+++ b/src/seastest.c
@@ -236,7 +236,7 @@ void stl(double *x,int N,int f, const char *s_window_type,int *s_window, int *s_
 
     robust_ = (robust == NULL) ? 0 : *robust;
     inner_ = (inner == NULL) ? (robust_ ? 1 : 2) : *inner;
-    outer_ = (inner == NULL) ? (robust_ ? 15 : 0) : *outer;
+    outer_ = (outer == NULL) ? (robust_ ? 15 : 0) : *outer;
 
     
     s_degree_ = degCheck(s_degree_);
-- 
2.43.0


From 324b5eb014b07a1c9235e68b06361aa1a5c82c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:03 +0000
Subject: [PATCH 049/121] fix: mstl processes the seasonal periods in ascending
 order

---
 src/seastest.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/seastest.c b/src/seastest.c
index cde771f..e6b9be2 100644
--- a/src/seastest.c
+++ b/src/seastest.c
@@ -334,6 +334,13 @@ void mstl(double *x, int N, int *f, int *Nseas, int *s_window,double *lambda,int
 
     sort1d_ascending(msts,Niter,pos);
 
+    t = (double*) malloc(sizeof(double)*Niter);
+    for(i = 0; i < Niter;++i) {
+        t[i] = msts[pos[i]];
+    }
+    memcpy(msts,t,sizeof(double)*Niter);
+    free(t);
+
     if (Niter > 0) {
 
         seas = (double*)calloc(Niter*N,sizeof(double));
-- 
2.43.0


From 842162cedb0dd9152ee9f6a11e2cb8bbb8606a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:05 +0000
Subject: [PATCH 050/121] fix: SHtest reports no seasonality for periods the
 series is too short for

---
 src/seastest.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/seastest.c b/src/seastest.c
index e6b9be2..fbc8099 100644
--- a/src/seastest.c
+++ b/src/seastest.c
@@ -728,6 +728,9 @@ void SHtest(double *x, int N, int *f, int Nseas, double *season) {
     /// of Niter to mstl as mstl has potential of modifying Niter
     /// which affects freeing of seasonal double array below
     Niter = Nseas;
+    for(i = 0; i < Nseas;++i) {
+        season[i] = 0.0;
+    }
     mstl(x, N,f,&Niter,NULL,NULL,NULL,seasonal,trend,remainder);
 
     vare = var(remainder,N);
-- 
2.43.0


From 39b094f421871563b99c58cd5dda99a1bdab27b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:37 +0000
Subject: [PATCH 051/121] fix: OCSBtest never asks for a negative lag order

---
 src/seastest.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seastest.c b/src/seastest.c
index fbc8099..96b6b1d 100644
--- a/src/seastest.c
+++ b/src/seastest.c
@@ -655,7 +655,7 @@ void OCSBtest(double *x, int N, int f, int mlags, const char *method,double *sta
         }
 
         bestindex = getBestIndex(icvals,mlags);
-        maxlag = bestindex-1;
+        maxlag = bestindex; // list[bestindex] has bestindex+1 lags
         crit_reg = list[bestindex];
 
     }
-- 
2.43.0


From ee43ac993dd8e43ef021bff11471e02e5d494a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:39 +0000
Subject: [PATCH 052/121] fix: OCSB candidate models with fewer lags use the
 matching rows

---
 src/seastest.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/seastest.c b/src/seastest.c
index 96b6b1d..499ba4a 100644
--- a/src/seastest.c
+++ b/src/seastest.c
@@ -443,7 +443,7 @@ reg_object fitOCSB(double *x, int N, int f, int lag, int mlags) {
     double *y_fdiff, *y, *ylag, *mf, *res, *varcovar;
     double *z4_y,*z4_lag,*z4_preds,*z4,*inp,*z5_y,*z5_lag,*z5_preds,*z5,*XX;
     double *y2,*z5_y2;
-    int Nz4y,Nz5y,mfrows;
+    int Nz4y,Nz5y,mfrows,offset;
     double alpha;
     reg_object fit;
     reg_object fitout;
@@ -471,9 +471,11 @@ reg_object fitOCSB(double *x, int N, int f, int lag, int mlags) {
 
     mf = (double*) malloc(sizeof(double)*ylrows*Ny);
     mfrows = ylrows;
+    // y2 starts mlags values into y, the lagged values lag values into it
+    offset = mlags > lag ? mlags - lag : 0;
 
     for(i = 0; i < ylrows;++i) {
-        memcpy(mf+Ny*i,ylag+ylcols*i,sizeof(double)*Ny);
+        memcpy(mf+Ny*i,ylag+ylcols*i+offset,sizeof(double)*Ny);
     }
 
     //mdisplay(mf,ylrows,Ny);
@@ -542,8 +544,8 @@ reg_object fitOCSB(double *x, int N, int f, int lag, int mlags) {
 
     XX = (double*) malloc(sizeof(double)*(mfrows+2) * Ny);
     memcpy(XX,mf,sizeof(double)*mfrows*Ny);
-    memcpy(XX+mfrows*Ny,z4,sizeof(double)*Ny);
-    memcpy(XX+(mfrows+1)*Ny,z5,sizeof(double)*Ny);
+    memcpy(XX+mfrows*Ny,z4+offset,sizeof(double)*Ny);
+    memcpy(XX+(mfrows+1)*Ny,z5+offset,sizeof(double)*Ny);
 
     //mdisplay(XX,mfrows+2,Ny);
     //mdisplay(y,1,Ny);
-- 
2.43.0


From 633c10292fa74bfbf57c943cb1b65009226c9507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:41 +0000
Subject: [PATCH 053/121] fix: OCSBtest frees its regressions only after their
 last use

---
 src/seastest.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/seastest.c b/src/seastest.c
index 499ba4a..bca9d5d 100644
--- a/src/seastest.c
+++ b/src/seastest.c
@@ -686,6 +686,7 @@ void OCSBtest(double *x, int N, int f, int mlags, const char *method,double *sta
             printf("Could not find a solution. Try a different method. \n");
             exit(-1);
         } else {
+            free_reg(fit);
             fit = crit_reg;
         }
     }
@@ -698,13 +699,19 @@ void OCSBtest(double *x, int N, int f, int mlags, const char *method,double *sta
 
     //mdisplay(tval,1,fit->p);
 
-    for(i = 0; i < mlags;++i) {
-		free_reg(list[i]);
-    }
-
     *critical = calcOCSBCritVal(f);
     *statistics = tval[fit->p-1];
 
+    if (fit != crit_reg) {
+        free_reg(fit);
+    }
+
+    if (crit_reg != NULL) {
+        for(i = 0; i < mlags;++i) {
+            free_reg(list[i]);
+        }
+    }
+
     free(list);
     free(icvals);
     free(tval);
-- 
2.43.0


From c92f6f9b70bbdeb0dbc9bb30b3a5dcaf973805a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:36 +0000
Subject: [PATCH 054/121] fix: robust STL uses the true median of the residuals
 for series of even length

---
 src/stl.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/stl.c b/src/stl.c
index 806135b..0c211f4 100644
--- a/src/stl.c
+++ b/src/stl.c
@@ -469,8 +469,9 @@ int stlrwt_(double *y, int *n, double *fit, double *rw)
 	rw[i__] = (d__1 = y[i__] - fit[i__], fabs(d__1));
 /* L7: */
     }
-    mid[0] = *n / 2 + 1;
-    mid[1] = *n - mid[0] + 1;
+/*     psort_ expects its indices in ascending order */
+    mid[1] = *n / 2 + 1;
+    mid[0] = *n - mid[1] + 1;
     psort_(&rw[1], *n, mid, c__2);
     cmad = (rw[mid[0]] + rw[mid[1]]) * 3.0;
 /*     = 6 * MAD */
-- 
2.43.0


From 55b9fed091cf6e254ca5d127e4e664dbf269de68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:57 +0000
Subject: [PATCH 055/121] fix: house: reflect a vector that is a negative
 multiple of the first unit vector

---
 src/matrix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matrix.c b/src/matrix.c
index 68e0f69..6c46c93 100644
--- a/src/matrix.c
+++ b/src/matrix.c
@@ -1408,7 +1408,7 @@ static double house_1(double*x,int N,double *v) {
 	if (sigma[0] == 0. && x[0] >= 0.) {
 		beta = 0.;
 	} else if (sigma[0] == 0. && x[0] < 0.) {
-		beta = -2.;
+		beta = 2.;
 	}else {
 		mu = sqrt(sigma[0] + x[0] * x[0]);
 		
-- 
2.43.0


From cfcb11cb9fdc13ad724917ca69b5127b695b81a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:03 +0000
Subject: [PATCH 056/121] fix: bcholu: report an indefinite leading block

---
 src/matrix.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/matrix.c b/src/matrix.c
index 6c46c93..14513a2 100644
--- a/src/matrix.c
+++ b/src/matrix.c
@@ -2289,7 +2289,14 @@ static int rbcholu(double *A,int N, int stride, double *UB, double *UT) {
 		b = (double*) malloc(sizeof(double) * bs);
 		U12T = (double*) malloc(sizeof(double) * Nb * bs);
 		U12 = (double*) malloc(sizeof(double) * Nb * bs);
-		rcholu(A,bs,stride,UB); // U11
+		sc = rcholu(A,bs,stride,UB); // U11
+		if (sc == -1) {
+			free(x);
+			free(b);
+			free(U12T);
+			free(U12);
+			return -1;
+		}
 		
 		for (i =0; i < bs;++i) {
 			t = i *stride;
-- 
2.43.0


From ad41d4723c0bdcd8b51ba647468abe3ff8fe0a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:07 +0000
Subject: [PATCH 057/121] fix: svd: scale a row by the entries of that row only

---
 src/matrix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matrix.c b/src/matrix.c
index 14513a2..5675cb8 100644
--- a/src/matrix.c
+++ b/src/matrix.c
@@ -2614,7 +2614,7 @@ int svd(double *A,int M,int N,double *U,double *V,double *q) {
 
         if (i < M && i != N - 1) {
         	t = i *N;
-        	for(k = l; k < M;++k) {
+        	for(k = l; k < N;++k) {
         		scale += fabs(U[t+k]);
         	}
         	if (scale != 0.0) {
-- 
2.43.0


From 8cd7165f268f73bd5ed9b054dc2a297be9bdb466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:11 +0000
Subject: [PATCH 058/121] fix: svd: free the work array when the iteration does
 not converge

---
 src/matrix.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/matrix.c b/src/matrix.c
index 5675cb8..d1d38c3 100644
--- a/src/matrix.c
+++ b/src/matrix.c
@@ -2817,6 +2817,7 @@ int svd(double *A,int M,int N,double *U,double *V,double *q) {
 			iter++;
 			if (iter > SVDMAXITER) {
 				printf("Convergence Not Achieved \n");
+				free(e);
 				return 15;
 			}
 
-- 
2.43.0


From 205923aea48b8f61c7f23e47adf06423f24b9de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:19 +0000
Subject: [PATCH 059/121] fix: eig: exceptional shifts when the QR iteration
 stalls

---
 src/matrix.c | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/matrix.c b/src/matrix.c
index d1d38c3..1ad8f70 100644
--- a/src/matrix.c
+++ b/src/matrix.c
@@ -1863,7 +1863,7 @@ void hessenberg(double *A,int N) {
 	free(w);
 }
 
-void francisQR(double *A,int N) {
+static void francisQR_step(double *A,int N,int exceptional) {
 	int m,n,k,q,r,t,u,i,j;
 	double s,t2,beta;
 	double *x,*v,*AT,*w;
@@ -1881,11 +1881,21 @@ void francisQR(double *A,int N) {
 	
 	s = A[NN-1] + A[NN-N-2];
 	t2 = A[NN-1] * A[NN-N-2] - A[NN-2] * A[NN-N-1];
+	if (exceptional && N > 2) {
+		// EISPACK hqr exceptional shift
+		beta = fabs(A[NN-2]) + fabs(A[NN-N-3]);
+		s = 1.5 * beta;
+		t2 = beta * beta;
+	}
 	
 	x[0] = A[0]*A[0] + A[1]*A[N] - s*A[0] + t2;
 	x[1] = A[N]*(A[0] + A[N+1] - s);
 	x[2] = A[N] * A[N+N+1];
 	if (N <= 2) {
+		free(x);
+		free(v);
+		free(AT);
+		free(w);
 		return;
 	}
 	
@@ -2007,6 +2017,10 @@ void francisQR(double *A,int N) {
 	
 }
 
+void francisQR(double *A,int N) {
+	francisQR_step(A,N,0);
+}
+
 void eig22(double *A, int stride,double *eigre,double *eigim) {
 	int N;
 	double a11,a12,a21,a22,c,s,c2,s2,cs,t1,t,t2,at11,at12,at21,at22;
@@ -2063,12 +2077,13 @@ void eig22(double *A, int stride,double *eigre,double *eigim) {
 }
 
 int francis_iter(double *A, int N, double *H) {
-	int success,brkpoint;
+	int success,brkpoint,stall;
 	int i,j,it,p,q,t,u;
 	double *temp;
 	success = 0;
 	brkpoint = 30 * N;
 	it = 0;
+	stall = 0;
 	p = N - 1;
 	temp = (double*) malloc(sizeof(double) * N * N);
 	for(i = 0; i < N*N;++i) {
@@ -2082,8 +2097,10 @@ int francis_iter(double *A, int N, double *H) {
 		while (p > 1 && (H[N*p + p-1] == 0 || H[N*(p-1) + p-2] == 0)) {
 			if (H[N*p + p-1] == 0) {
 				p--;
+				stall = 0;
 			} else if (H[N*(p-1) + p-2] == 0) {
 				p=p-2;
+				stall = 0;
 			}
 		}
 		
@@ -2100,7 +2117,8 @@ int francis_iter(double *A, int N, double *H) {
 					temp[u+j-q] = H[t+j];
 				}
 			}
-			francisQR(temp,p-q+1);
+			stall++;
+			francisQR_step(temp,p-q+1,stall % 10 == 0);
 			for (i=q; i <= p; i++) {
 				t = i * N;
 				u = (i-q) * (p-q+1);
-- 
2.43.0


From cd5bd744134bc50add3888f812e29af1f6b5c973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:48 +0000
Subject: [PATCH 060/121] fix: eig: deflate between two zero diagonal entries

---
 src/matrix.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/matrix.c b/src/matrix.c
index 1ad8f70..bf97949 100644
--- a/src/matrix.c
+++ b/src/matrix.c
@@ -2079,6 +2079,7 @@ void eig22(double *A, int stride,double *eigre,double *eigim) {
 int francis_iter(double *A, int N, double *H) {
 	int success,brkpoint,stall;
 	int i,j,it,p,q,t,u;
+	double hnorm,scl;
 	double *temp;
 	success = 0;
 	brkpoint = 30 * N;
@@ -2092,6 +2093,11 @@ int francis_iter(double *A, int N, double *H) {
 	
 	hessenberg(H,N);
 	
+	hnorm = 0.;
+	for(i = 0; i < N*N;++i) {
+		hnorm += fabs(H[i]);
+	}
+	
 	while (p > 1 && it < brkpoint) {
 		
 		while (p > 1 && (H[N*p + p-1] == 0 || H[N*(p-1) + p-2] == 0)) {
@@ -2128,7 +2134,11 @@ int francis_iter(double *A, int N, double *H) {
 			}
 			//mdisplay(H,N,N);
 			for(i = q; i <= p-1;++i) {
-				if ( fabs(H[(i+1)*N+i]) <= TOL * (fabs(H[i*N+i]) + fabs(H[(i+1)*N+i+1]) ) ) {
+				scl = fabs(H[i*N+i]) + fabs(H[(i+1)*N+i+1]);
+				if (scl == 0.) {
+					scl = hnorm;
+				}
+				if ( fabs(H[(i+1)*N+i]) <= TOL * scl ) {
 					H[(i+1)*N+i] = 0.;
 				}
 			}
-- 
2.43.0


From ee4b3d4b0d0b7fa546a12493795af12c9a92dbef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:51 +0000
Subject: [PATCH 061/121] fix: svd_gr: scale a row by the entries of that row
 only

---
 src/lls.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lls.c b/src/lls.c
index debe859..f5332a8 100644
--- a/src/lls.c
+++ b/src/lls.c
@@ -552,7 +552,7 @@ int svd_gr(double *A,int M,int N,double *U,double *V,double *q) {
 
         if (i < M && i != N - 1) {
         	t = i *N;
-        	for(k = l; k < M;++k) {
+        	for(k = l; k < N;++k) {
         		scale += fabs(U[t+k]);
         	}
         	if (scale != 0.0) {
-- 
2.43.0


From 17ee66cde0f8e139689665b6cd33bfa78fb9bf10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:54 +0000
Subject: [PATCH 062/121] fix: lls_normal: free the work arrays

---
 src/lls.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lls.c b/src/lls.c
index f5332a8..1d398ac 100644
--- a/src/lls.c
+++ b/src/lls.c
@@ -30,6 +30,11 @@ int lls_normal(double *A,double *b,int M,int N,double *x) {
 
 	sc = chol(C,N);
 	if (sc == -1) {
+		free(AT);
+		free(d);
+		free(C);
+		free(y);
+		free(CT);
 		return -1;
 	}
 
@@ -65,6 +70,7 @@ int lls_normal(double *A,double *b,int M,int N,double *x) {
 	free(d);
 	free(C);
 	free(y);
+	free(CT);
 	return retcode;
 }
 
-- 
2.43.0


From f9c2849c9027bf5b184efcadb21f7fccc053e40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:11 +0000
Subject: [PATCH 063/121] fix: lls_svd, lls_svd2: drop singular values that are
 negligible relative to the largest

---
 src/lls.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/lls.c b/src/lls.c
index 1d398ac..b0faceb 100644
--- a/src/lls.c
+++ b/src/lls.c
@@ -1348,7 +1348,7 @@ int minfit(double *AB,int M,int N,int P,double *q) {
 int lls_svd2(double *Ai,double *bi,int M,int N,double *xo) {
 	int retcode,P,mnmax,np,i,j,t,t2;
 	double *AB,*q,*V,*C;
-	double eps;
+	double eps,tol;
 
 	if (M > N) {
 		mnmax = M;
@@ -1380,6 +1380,14 @@ int lls_svd2(double *Ai,double *bi,int M,int N,double *xo) {
 
 	minfit(AB,M,N,P,q);
 
+	tol = 0.0;
+	for(j = 0; j < N;++j) {
+		if (fabs(q[j]) > tol) {
+			tol = fabs(q[j]);
+		}
+	}
+	tol *= mnmax * eps;
+
 	for(i = 0; i < N;++i) {
 		t = i * N;
 		t2 = i * np;
@@ -1391,7 +1399,7 @@ int lls_svd2(double *Ai,double *bi,int M,int N,double *xo) {
 	for(i = 0; i < N;++i) {
 		t = i *N;
 		for(j = 0; j < N;++j) {
-			if (fabs(q[j]) > eps) {
+			if (fabs(q[j]) > tol) {
 				V[t+j] /= q[j];
 			} else {
 				V[t+j] = 0.0;
@@ -1415,7 +1423,7 @@ int lls_svd2(double *Ai,double *bi,int M,int N,double *xo) {
 int lls_svd(double *Ai,double *bi,int M,int N,double *xo) {
 	int retcode,i,j,t;
 	double *U,*V,*q,*C;
-	double eps;
+	double eps,tol;
 
 	U = (double*) malloc(sizeof(double) * M*N);
 	V = (double*) malloc(sizeof(double) * N*N);
@@ -1432,10 +1440,12 @@ int lls_svd(double *Ai,double *bi,int M,int N,double *xo) {
 
 	mmult(bi,U,C,1,M,N);
 
+	tol = q[0] * ((M > N) ? M : N) * eps;
+
 	for(i = 0; i < N;++i) {
 		t = i *N;
 		for(j = 0; j < N;++j) {
-			if (fabs(q[j]) > eps) {
+			if (fabs(q[j]) > tol) {
 				V[t+j] /= q[j];
 			} else {
 				V[t+j] = 0.0;
-- 
2.43.0


From aeaff8ec73101e82791651b6f6d70bc8126dca5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:14 +0000
Subject: [PATCH 064/121] fix: lls: free the work arrays of the SVD routines

---
 src/lls.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/lls.c b/src/lls.c
index b0faceb..632c586 100644
--- a/src/lls.c
+++ b/src/lls.c
@@ -677,7 +677,8 @@ int svd_gr(double *A,int M,int N,double *U,double *V,double *q) {
 			while(1) {
 				iter++;
 				if (iter > SVDMAXITER) {
-					printf("Convergence Not Achieved \n");
+					free(e);
+				printf("Convergence Not Achieved \n");
 					return 15;
 				}
 
@@ -975,6 +976,7 @@ int svd_gr2(double *A,int M,int N,double *U,double *V,double *q) {
 		while(1) {
 			iter++;
 			if (iter > SVDMAXITER) {
+				free(e);
 				printf("Convergence Not Achieved \n");
 				return 15;
 			}
@@ -1233,6 +1235,7 @@ int minfit(double *AB,int M,int N,int P,double *q) {
 		while(1) {
 			iter++;
 			if (iter > SVDMAXITER) {
+				free(e);
 				printf("Convergence Not Achieved \n");
 				return 15;
 			}
@@ -1435,6 +1438,10 @@ int lls_svd(double *Ai,double *bi,int M,int N,double *xo) {
 
 	retcode = svd(Ai,M,N,U,V,q);;
 	if (retcode != 0) {
+		free(U);
+		free(V);
+		free(q);
+		free(C);
 		return retcode;
 	}
 
@@ -1458,6 +1465,7 @@ int lls_svd(double *Ai,double *bi,int M,int N,double *xo) {
 	free(U);
 	free(V);
 	free(q);
+	free(C);
 
 	return retcode;
 }
-- 
2.43.0


From 48914afc0d826c2429c6c494c21c01f34a1a22e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:23 +0000
Subject: [PATCH 065/121] fix: eig: deflate subdiagonals that are negligible
 against the whole matrix

---
 src/matrix.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/matrix.c b/src/matrix.c
index bf97949..a280d1d 100644
--- a/src/matrix.c
+++ b/src/matrix.c
@@ -2135,10 +2135,7 @@ int francis_iter(double *A, int N, double *H) {
 			//mdisplay(H,N,N);
 			for(i = q; i <= p-1;++i) {
 				scl = fabs(H[i*N+i]) + fabs(H[(i+1)*N+i+1]);
-				if (scl == 0.) {
-					scl = hnorm;
-				}
-				if ( fabs(H[(i+1)*N+i]) <= TOL * scl ) {
+				if ( fabs(H[(i+1)*N+i]) <= TOL * scl || fabs(H[(i+1)*N+i]) <= DBL_EPSILON * hnorm ) {
 					H[(i+1)*N+i] = 0.;
 				}
 			}
-- 
2.43.0


From 70f1286b14b89353d9251a42c5aaa24a238eb1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:54 +0000
Subject: [PATCH 066/121] fix: house: scale the vector so that its squares do
 not underflow or overflow

---
 src/matrix.c | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/matrix.c b/src/matrix.c
index a280d1d..f83afd6 100644
--- a/src/matrix.c
+++ b/src/matrix.c
@@ -1387,10 +1387,23 @@ void eye_scale(double *mat, int N, double lambda) {
 	}
 }
 
-static double house_1(double*x,int N,double *v) {
+static double house_1(double*xi,int N,double *v) {
 	double beta,mu,temp;
-	double *sigma;
-	int i;
+	double *sigma,*x;
+	int i,ex;
+	
+	// beta and v do not depend on the scale of x: keep the squares in range
+	x = (double*) malloc(sizeof(double) * N);
+	temp = 0.;
+	for (i = 0; i < N;++i) {
+		if (fabs(xi[i]) > temp) {
+			temp = fabs(xi[i]);
+		}
+	}
+	frexp(temp,&ex);
+	for (i = 0; i < N;++i) {
+		x[i] = ldexp(xi[i],-ex);
+	}
 	
 	sigma = (double*) malloc(sizeof(double) * 1);
 	
@@ -1427,6 +1440,7 @@ static double house_1(double*x,int N,double *v) {
 		
 	}
 	
+	free(x);
 	free(sigma);
 	return beta;
 }
-- 
2.43.0


From 48173c4d4c44617a9840f64fb9acaceb3b3acef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:52 +0000
Subject: [PATCH 067/121] fix: tinv: lower-tail quantiles are negative

---
 src/pdist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdist.c b/src/pdist.c
index 877eefb..a207793 100644
--- a/src/pdist.c
+++ b/src/pdist.c
@@ -183,7 +183,7 @@ double tinv(double p, int df) {
 		x = betainv(pmin,d2,0.5);
 		y = 1. - x;
 		
-		t = sqrt( (double) df * y / x);
+		t = sign * sqrt( (double) df * y / x);
 	}
 	
 	if ( p > 0. && p < 1. && df > 1000 ) {
-- 
2.43.0


From 1d9b479bc94fccdeaa47807613b22df64b5d951d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:54 +0000
Subject: [PATCH 068/121] fix: betapdf: density at the end points 0 and 1

---
 src/dist.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dist.c b/src/dist.c
index 0dfa448..ded7d31 100644
--- a/src/dist.c
+++ b/src/dist.c
@@ -725,13 +725,13 @@ double betapdf(double x, double a , double b) {
 		exit(1);
 	} 
 	
-	if (a == 1. || x == 0.) {
+	if (a == 1.) {
 		la = 0.;
 	} else {
 		la = (a - 1.) * log(x);
 	}
 	
-	if (b == 1. || x == 1.) {
+	if (b == 1.) {
 		lb = 0.;
 	} else {
 		lb = (b - 1.) * log(1. - x);
-- 
2.43.0


From 1f08bd4d929a1187642702a1bf931035e4fc28d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:09 +0000
Subject: [PATCH 069/121] fix: factorial: 0! is 1

---
 src/dist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dist.c b/src/dist.c
index ded7d31..347d12c 100644
--- a/src/dist.c
+++ b/src/dist.c
@@ -65,7 +65,7 @@ double recfact(double N) {
 
 	i = (int) N;
 
-	if (i == 1) {
+	if (i <= 1) {
 		return 1;
 	} else {
 		return N * recfact(N-1);
-- 
2.43.0


From 66275c4aac823cf8af78adcddf139e8c3ceb87c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:12 +0000
Subject: [PATCH 070/121] fix: tcdf: only t = 0 has probability one half

---
 src/pdist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdist.c b/src/pdist.c
index a207793..5d3d8ba 100644
--- a/src/pdist.c
+++ b/src/pdist.c
@@ -93,7 +93,7 @@ double tcdf(double t, int df) {
 		oup = 1. - oup;
 	}
 	
-	if ( x == 0.) {
+	if ( t == 0.) {
 		oup = 0.5;
 	}
 	
-- 
2.43.0


From c8656198312be4fe36b35139914070f235d4f855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:14 +0000
Subject: [PATCH 071/121] fix: gammapdf: the density at 0 is 0 for a shape
 above 1

---
 src/pdist.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pdist.c b/src/pdist.c
index 5d3d8ba..2465034 100644
--- a/src/pdist.c
+++ b/src/pdist.c
@@ -297,6 +297,8 @@ double gammapdf(double x, double k, double th) {
 		oup = 0.0;
 	} else if (t == 0.0 && k == 1) {
 		oup = 1.0 / th;
+	} else if (t == 0.0 && k > 1) {
+		oup = 0.0;
 	} else {
 		printf("The Output is Complex and cannot be determined");
 		exit(1);
-- 
2.43.0


From 38f9522e8830935ba541aa7a884c2d645b28b59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:58 +0000
Subject: [PATCH 072/121] fix: Nelder-Mead: rebuild the whole simplex on a
 restart

---
 src/neldermead.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/neldermead.c b/src/neldermead.c
index 58a1f0c..b85c552 100644
--- a/src/neldermead.c
+++ b/src/neldermead.c
@@ -63,6 +63,7 @@ int nel_min(custom_function *funcpt,double *xc,int N,double *dx,double fsval,int
 
 	while (ctl == 0 && *niter < siter) {
 		// Create N+1 point Simplex
+		ct = N * N;
 		for (i = 0; i < N;++i) {
 			P[ct + i] = xi[i];
 		}
@@ -291,6 +292,7 @@ int nel_min(custom_function *funcpt,double *xc,int N,double *dx,double fsval,int
 			} else {
 				ctl++;
 			}
+			xmin[i] += del;
 		}
 
 		if (ctl == 0) {
-- 
2.43.0


From a12b3be19ce14205b02db8ed176f2b0333faf3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:01 +0000
Subject: [PATCH 073/121] fix: Nelder-Mead: return the best vertex of the
 simplex

---
 src/neldermead.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/neldermead.c b/src/neldermead.c
index b85c552..33a57ed 100644
--- a/src/neldermead.c
+++ b/src/neldermead.c
@@ -305,7 +305,7 @@ int nel_min(custom_function *funcpt,double *xc,int N,double *dx,double fsval,int
 
 	}
 
-	ct = N * N;
+	ct = ilo * N;
 	for (i = 0; i < N;++i) {
 		xf[i] = P[ct + i];
 	}
-- 
2.43.0


From 07569882e604915d7c24da1b3a4611149428ed97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:25 +0000
Subject: [PATCH 074/121] fix: Nelder-Mead: return the starting point when no
 iteration is allowed

---
 src/neldermead.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/neldermead.c b/src/neldermead.c
index 33a57ed..bcbb333 100644
--- a/src/neldermead.c
+++ b/src/neldermead.c
@@ -59,7 +59,9 @@ int nel_min(custom_function *funcpt,double *xc,int N,double *dx,double fsval,int
 
 	for (i = 0; i < N;++i) {
 		xi[i] = xc[i];
+		P[ct + i] = xc[i];
 	}
+	ilo = N;
 
 	while (ctl == 0 && *niter < siter) {
 		// Create N+1 point Simplex
-- 
2.43.0


From 36f64f927030b95e6eb09450169fe9bc3533a6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:16 +0000
Subject: [PATCH 075/121] fix: svd: no underflow when accumulating the
 right-hand transformations

---
 src/matrix.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/matrix.c b/src/matrix.c
index f83afd6..87eba71 100644
--- a/src/matrix.c
+++ b/src/matrix.c
@@ -2782,9 +2782,9 @@ int svd(double *A,int M,int N,double *U,double *V,double *q) {
 		t = i * N;
 		if (i < N - 1) {
 			if (g != 0.0) {
-				h = U[t+i+1] * g;
 				for(j = l;j < N;++j) {
-					V[j*N+i] = U[t+j] / h;
+					// double division avoids underflow
+					V[j*N+i] = (U[t+j] / U[t+i+1]) / g;
 				}
 				for(j = l;j < N;++j) {
 					s = 0.0;
-- 
2.43.0


From c1f42a6c1a60b1559b754cf6a6a5b8f0b2201512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:20 +0000
Subject: [PATCH 076/121] fix: svd_gr: no underflow when accumulating the
 right-hand transformations

---
 src/lls.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lls.c b/src/lls.c
index 632c586..8652fdf 100644
--- a/src/lls.c
+++ b/src/lls.c
@@ -604,9 +604,9 @@ int svd_gr(double *A,int M,int N,double *U,double *V,double *q) {
 			t = i * N;
 			if (i < N - 1) {
 				if (g != 0.0) {
-					h = U[t+i+1] * g;
 					for(j = l;j < N;++j) {
-						V[j*N+i] = U[t+j] / h;
+						// double division avoids underflow
+						V[j*N+i] = (U[t+j] / U[t+i+1]) / g;
 					}
 					for(j = l;j < N;++j) {
 						s = 0.0;
-- 
2.43.0


From 934eb2324f4837f3d76127eeef44fa0d2944b98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:09 +0000
Subject: [PATCH 077/121] fix: getMODWTmra: reconstruct the details with the
 high-pass filter

---
 src/wavelib.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wavelib.c b/src/wavelib.c
index cddc3cb..cc02209 100644
--- a/src/wavelib.c
+++ b/src/wavelib.c
@@ -2738,10 +2738,10 @@ double* getMODWTmra(wt_object wt, double *wavecoeffs) {
 			ninp[i].im = 0.0;
 		}
 
-		getMODWTRecCoeff(fft_fd, fft_bd, sig, ninp,cA, cD, index, "det", J-iter, J, low_pass, high_pass, N);
+		getMODWTRecCoeff(fft_fd, fft_bd, ninp, sig, cA, cD, index, "det", J-iter, J, low_pass, high_pass, N);
 
 		for (i = 0; i < wt->siglength; ++i) {
-			mra[lmra+i] = sig[i].re;
+			mra[lmra+i] = ninp[i].re;
 		}
 
 		lenacc += N;
-- 
2.43.0


From 1192778c89f4e16df6917db66099680e0341b494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:45 +0000
Subject: [PATCH 078/121] fix: regression: confidence limits use the upper t
 quantile

---
 src/regression.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/regression.c b/src/regression.c
index dc0be63..cd9dbb1 100644
--- a/src/regression.c
+++ b/src/regression.c
@@ -157,7 +157,7 @@ void linreg_clrm(double *x, double *y, int N, double* b,
 	a2 = alpha / 2.;
 	df = N - 2; // Number of parameters = 2
 
-	ta2 = tinv(a2, df);
+	ta2 = tinv(1. - a2, df);
 	intrvl = ta2 * seb1;
 
 	ci_lower[0] = b[0] - intrvl;
@@ -350,7 +350,7 @@ void linreg_multi(int p, double *xi, double *y, int N, double* b, double *sigma2
 	for (i = 0; i < p; ++i) {
 		seb[i] = sqrt(xxti[i*(p + 1)]);
 
-		ta2 = tinv(a2, df);
+		ta2 = tinv(1. - a2, df);
 		intrvl = ta2 * seb[i];
 
 		ci_lower[i] = b[i] - intrvl;
-- 
2.43.0


From abd0864b4f579db76e23fbc2dab479c77f3318c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:40 +0000
Subject: [PATCH 079/121] fix: modwt_fft, imodwt_fft, getMODWTmra: wrap a
 filter that is longer than the signal

---
 src/wavelib.c | 54 +++++++++++++++++++++++----------------------------
 1 file changed, 24 insertions(+), 30 deletions(-)

diff --git a/src/wavelib.c b/src/wavelib.c
index cc02209..7ac4a7a 100644
--- a/src/wavelib.c
+++ b/src/wavelib.c
@@ -2466,28 +2466,26 @@ static void modwt_fft(wt_object wt, const double *inp) {
 
 	// Low Pass Filter
 
-	for(i = 0; i < len_avg;++i) {
-		sig[i].re = (fft_type) wt->wave->lpd[i] / s;
-		sig[i].im = 0.0;
-	}
-	for(i = len_avg; i < N;++i) {
+	for (i = 0; i < N; ++i) {
 		sig[i].re = 0.0;
 		sig[i].im = 0.0;
 	}
+	for (i = 0; i < len_avg; ++i) {
+		sig[i % N].re += (fft_type)wt->wave->lpd[i] / s;
+	}
 
 
 	fft_exec(fft_fd, sig, low_pass);
 
 	// High Pass Filter
 
-	for (i = 0; i < len_avg; ++i) {
-		sig[i].re = (fft_type)wt->wave->hpd[i] / s;
-		sig[i].im = 0.0;
-	}
-	for (i = len_avg; i < N; ++i) {
+	for (i = 0; i < N; ++i) {
 		sig[i].re = 0.0;
 		sig[i].im = 0.0;
 	}
+	for (i = 0; i < len_avg; ++i) {
+		sig[i % N].re += (fft_type)wt->wave->hpd[i] / s;
+	}
 
 	fft_exec(fft_fd, sig, high_pass);
 
@@ -2678,28 +2676,26 @@ double* getMODWTmra(wt_object wt, double *wavecoeffs) {
 
 	// Low Pass Filter
 
-	for (i = 0; i < len_avg; ++i) {
-		sig[i].re = (fft_type)wt->wave->lpd[i] / s;
-		sig[i].im = 0.0;
-	}
-	for (i = len_avg; i < N; ++i) {
+	for (i = 0; i < N; ++i) {
 		sig[i].re = 0.0;
 		sig[i].im = 0.0;
 	}
+	for (i = 0; i < len_avg; ++i) {
+		sig[i % N].re += (fft_type)wt->wave->lpd[i] / s;
+	}
 
 
 	fft_exec(fft_fd, sig, low_pass);
 
 	// High Pass Filter
 
-	for (i = 0; i < len_avg; ++i) {
-		sig[i].re = (fft_type)wt->wave->hpd[i] / s;
-		sig[i].im = 0.0;
-	}
-	for (i = len_avg; i < N; ++i) {
+	for (i = 0; i < N; ++i) {
 		sig[i].re = 0.0;
 		sig[i].im = 0.0;
 	}
+	for (i = 0; i < len_avg; ++i) {
+		sig[i % N].re += (fft_type)wt->wave->hpd[i] / s;
+	}
 
 	fft_exec(fft_fd, sig, high_pass);
 
@@ -2796,28 +2792,26 @@ void imodwt_fft(wt_object wt, double *oup) {
 
 	// Low Pass Filter
 
-	for (i = 0; i < len_avg; ++i) {
-		sig[i].re = (fft_type)wt->wave->lpd[i] / s;
-		sig[i].im = 0.0;
-	}
-	for (i = len_avg; i < N; ++i) {
+	for (i = 0; i < N; ++i) {
 		sig[i].re = 0.0;
 		sig[i].im = 0.0;
 	}
+	for (i = 0; i < len_avg; ++i) {
+		sig[i % N].re += (fft_type)wt->wave->lpd[i] / s;
+	}
 
 
 	fft_exec(fft_fd, sig, low_pass);
 
 	// High Pass Filter
 
-	for (i = 0; i < len_avg; ++i) {
-		sig[i].re = (fft_type)wt->wave->hpd[i] / s;
-		sig[i].im = 0.0;
-	}
-	for (i = len_avg; i < N; ++i) {
+	for (i = 0; i < N; ++i) {
 		sig[i].re = 0.0;
 		sig[i].im = 0.0;
 	}
+	for (i = 0; i < len_avg; ++i) {
+		sig[i % N].re += (fft_type)wt->wave->hpd[i] / s;
+	}
 
 	fft_exec(fft_fd, sig, high_pass);
 
-- 
2.43.0


From 9ccb4468e9993e35c23fd64a58d288595555fb8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:29 +0000
Subject: [PATCH 080/121] fix: Box-Jenkins fits: report the mean, not the
 constant term

---
 src/boxjenkins.c | 22 +++++-----------------
 1 file changed, 5 insertions(+), 17 deletions(-)

diff --git a/src/boxjenkins.c b/src/boxjenkins.c
index a94e58d..0891f14 100644
--- a/src/boxjenkins.c
+++ b/src/boxjenkins.c
@@ -943,13 +943,9 @@ int nlalsm(double *vec,int N,int p,int delta, int q, double *phi,double *theta,
 	}
 	// Residual Variance
 	*var = sumb * 1.0 /(N - p - q - M);
-	//Constant Term
+	// Mean
 	if (M == 1) {
-		temp = 0.0;
-		for (i = 0;i < p;++i) {
-			temp += phiinc[i];
-		}
-		*thetac = b[0] * (1.0 - temp);
+		*thetac = b[0];
 	} else {
 		*thetac = 0.0;
 	}
@@ -1016,7 +1012,7 @@ int nlalsms(double *vec,int N,int p,int delta, int q, double *phi,double *theta,
 		int M,double *thetac,double *var,double eps,double *varcovar,double *residuals) {
 
 	int retval,i,j,l,k,t,t2,it,Norig,qd,itmax;
-	double lam,vmul,e1,di,eps2,stepsize,temp,tau,hmax,suminc,sumb,temp2;
+	double lam,vmul,e1,di,eps2,stepsize,temp,tau,hmax,suminc,sumb;
 	double *inp,*b,*at,*at0,*x,*phi0,*theta0,*orig,*A,*g,*D,*h,*binc,*Atemp;
 	double *phiincx,*thetaincx,*atinc,*resat,*origval;
 	int *ipiv;
@@ -1560,17 +1556,9 @@ int nlalsms(double *vec,int N,int p,int delta, int q, double *phi,double *theta,
 	}
 	// Residual Variance
 	*var = sumb * 1.0 / (N - p - q - lps - lqs - M);
-	//Constant Term
+	// Mean
 	if (M == 1) {
-		temp = 0.0;
-		temp2 = 0.0;
-		for (i = 0; i < p; ++i) {
-			temp -= phiinc[i+1];
-		}
-		for (i = 0; i < lps; ++i) {
-			temp2 -= phisinc[i + 1];
-		}
-		*thetac = b[0] * (1.0 - temp)*(1.0 - temp2) ;
+		*thetac = b[0];
 	}
 	else {
 		*thetac = 0.0;
-- 
2.43.0


From 25633c7dc11a2a53b554a3e348be87c4b7115267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:33 +0000
Subject: [PATCH 081/121] fix: Box-Jenkins fits: covariance matrix in the order
 of the coefficients

---
 src/boxjenkins.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/boxjenkins.c b/src/boxjenkins.c
index 0891f14..d1bbcd5 100644
--- a/src/boxjenkins.c
+++ b/src/boxjenkins.c
@@ -975,8 +975,13 @@ int nlalsm(double *vec,int N,int p,int delta, int q, double *phi,double *theta,
 
 	//mdisplay(varcovar, 1, k*k);
 
-	for(i = 0; i < k*k;++i) {
-		varcovar[i] = varcovar[i] * (*var);
+	// parameters are ordered phi, theta, mean in the output
+
+	memcpy(Atemp,varcovar,sizeof(double)*k*k);
+	for(i = 0; i < k;++i) {
+		for(j = 0; j < k;++j) {
+			varcovar[i*k+j] = Atemp[((i+M)%k)*k+(j+M)%k] * (*var);
+		}
 	}
 
 	for(i = qd-1; i < N+qd-1;++i) {
@@ -1602,8 +1607,13 @@ int nlalsms(double *vec,int N,int p,int delta, int q, double *phi,double *theta,
 	ludecomp(A, k, ipiv);
 	minverse(A, k, ipiv, varcovar);
 
-	for (i = 0; i < k*k; ++i) {
-		varcovar[i] = varcovar[i] * (*var);
+	// parameters are ordered phi, theta, PHI, THETA, mean in the output
+
+	memcpy(Atemp,varcovar,sizeof(double)*k*k);
+	for (i = 0; i < k; ++i) {
+		for (j = 0; j < k; ++j) {
+			varcovar[i*k + j] = Atemp[((i + M) % k)*k + (j + M) % k] * (*var);
+		}
 	}
 
 
-- 
2.43.0


From 8ad7e252ee6599c6f65f6d81b2233bb4ce26924f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:37 +0000
Subject: [PATCH 082/121] fix: Box-Jenkins fits: difference step for parameters
 at or near zero

---
 src/boxjenkins.c | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/boxjenkins.c b/src/boxjenkins.c
index d1bbcd5..7ff5450 100644
--- a/src/boxjenkins.c
+++ b/src/boxjenkins.c
@@ -351,6 +351,15 @@ static double sosqm(double *vec, int N) {
 	return sos;
 }
 
+static double stepscale(double b, double scale) {
+	// size of the difference step, bounded away from zero for small parameters
+	double size;
+
+	size = fabs(b) > 0.1*scale ? fabs(b) : 0.1*scale;
+
+	return b < 0.0 ? -size : size;
+}
+
 void avaluem(double *w,int N,int p, int q, double *phi,double *theta,int tval,double *a) {
 	int k,i,t,t2,newl,iter;
 	double temp;
@@ -611,7 +620,7 @@ void avalues(double *w,int N,int p, int q, double *phi,double *theta,int s,int p
 int nlalsm(double *vec,int N,int p,int delta, int q, double *phi,double *theta,
 		int M,double *thetac,double *var,double eps,double *varcovar,double *residuals) {
 	int retval,i,j,l,k,t,t2,it,Norig,qd,itmax;
-	double lam,vmul,e1,di,eps2,stepsize,temp,tau,hmax,suminc,sumb;
+	double lam,vmul,e1,di,eps2,stepsize,temp,tau,hmax,suminc,sumb,scale;
 	double *inp,*b,*at,*at0,*x,*phi0,*theta0,*orig,*A,*g,*D,*h,*binc,*Atemp;
 	double *phiinc,*thetainc,*atinc,*resat,*origval;
 	int *ipiv;
@@ -656,6 +665,8 @@ int nlalsm(double *vec,int N,int p,int delta, int q, double *phi,double *theta,
 
 	USPE(inp,N,p,q,phi,theta,thetac,var); // Initial Parameters
 
+	scale = sqrt(sosqm(inp,N)/N); // unit of the mean
+
 	if (M == 1) {
 		for(i = 0; i < N;++i) {
 			inp[i] -= *thetac;
@@ -701,7 +712,7 @@ int nlalsm(double *vec,int N,int p,int delta, int q, double *phi,double *theta,
 	}
 	//mdisplay(at,1,N+qd-1);
 	for(i = 0; i < k;++i) {
-		stepsize = b[i]*di;//di;//b[i] * di;
+		stepsize = di*stepscale(b[i],(M == 1 && i == 0) ? scale : 1.0);
 		temp = b[i];
 		b[i] += stepsize;
 		stepsize = b[i] - temp;
@@ -855,7 +866,7 @@ int nlalsm(double *vec,int N,int p,int delta, int q, double *phi,double *theta,
 			    }
 				
 				for(i = 0; i < k;++i) {
-					stepsize = b[i]*di;//di;//b[i] * di;
+					stepsize = di*stepscale(b[i],(M == 1 && i == 0) ? scale : 1.0);
 					temp = b[i];
 					b[i] += stepsize;
 					stepsize = b[i] - temp;
@@ -1017,7 +1028,7 @@ int nlalsms(double *vec,int N,int p,int delta, int q, double *phi,double *theta,
 		int M,double *thetac,double *var,double eps,double *varcovar,double *residuals) {
 
 	int retval,i,j,l,k,t,t2,it,Norig,qd,itmax;
-	double lam,vmul,e1,di,eps2,stepsize,temp,tau,hmax,suminc,sumb;
+	double lam,vmul,e1,di,eps2,stepsize,temp,tau,hmax,suminc,sumb,scale;
 	double *inp,*b,*at,*at0,*x,*phi0,*theta0,*orig,*A,*g,*D,*h,*binc,*Atemp;
 	double *phiincx,*thetaincx,*atinc,*resat,*origval;
 	int *ipiv;
@@ -1107,6 +1118,8 @@ int nlalsms(double *vec,int N,int p,int delta, int q, double *phi,double *theta,
 */
 	//ENDS HERE
 
+	scale = sqrt(sosqm(inp,N)/N); // unit of the mean
+
 	if (M == 1) {
 		for(i = 0; i < N;++i) {
 			inp[i] -= *thetac;
@@ -1213,7 +1226,7 @@ int nlalsms(double *vec,int N,int p,int delta, int q, double *phi,double *theta,
 	}
 	
 	for (i = 0; i < k; ++i) {
-		stepsize = b[i] * di;//di;//b[i] * di;
+		stepsize = di*stepscale(b[i],(M == 1 && i == 0) ? scale : 1.0);
 		temp = b[i];
 		b[i] += stepsize;
 		stepsize = b[i] - temp;
@@ -1439,7 +1452,7 @@ int nlalsms(double *vec,int N,int p,int delta, int q, double *phi,double *theta,
 				}
 
 				for (i = 0; i < k; ++i) {
-					stepsize = b[i] * di;//di;//b[i] * di;
+					stepsize = di*stepscale(b[i],(M == 1 && i == 0) ? scale : 1.0);
 					temp = b[i];
 					b[i] += stepsize;
 					stepsize = b[i] - temp;
-- 
2.43.0


From b92abe13b130530849f77608ed24d99b32a6d9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:41 +0000
Subject: [PATCH 083/121] fix: Box-Jenkins fits: models without coefficients

---
 src/boxjenkins.c | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/boxjenkins.c b/src/boxjenkins.c
index 7ff5450..9ec5eaf 100644
--- a/src/boxjenkins.c
+++ b/src/boxjenkins.c
@@ -620,7 +620,7 @@ void avalues(double *w,int N,int p, int q, double *phi,double *theta,int s,int p
 int nlalsm(double *vec,int N,int p,int delta, int q, double *phi,double *theta,
 		int M,double *thetac,double *var,double eps,double *varcovar,double *residuals) {
 	int retval,i,j,l,k,t,t2,it,Norig,qd,itmax;
-	double lam,vmul,e1,di,eps2,stepsize,temp,tau,hmax,suminc,sumb,scale;
+	double lam,vmul,e1,di,eps2,stepsize,temp,hmax,suminc,sumb,scale;
 	double *inp,*b,*at,*at0,*x,*phi0,*theta0,*orig,*A,*g,*D,*h,*binc,*Atemp;
 	double *phiinc,*thetainc,*atinc,*resat,*origval;
 	int *ipiv;
@@ -770,11 +770,9 @@ int nlalsm(double *vec,int N,int p,int delta, int q, double *phi,double *theta,
 		D[i] = sqrt(A[i*k+i]);
 	}
 
-	tau = array_max(D,k);
-	//printf("TAU %g \n",tau);
 	//mdisplay(x,k,N+qd-1);
 
-	while (hmax >= e1 && it < itmax) {
+	while (k > 0 && hmax >= e1 && it < itmax) {
 		it++;
 		for(i = 0; i < k;++i) {
 			for(j = 0; j < k;++j) {
@@ -949,11 +947,11 @@ int nlalsm(double *vec,int N,int p,int delta, int q, double *phi,double *theta,
 	
 	if (it >= itmax) {
 		retval = 4;
-	} else if (it < itmax && it > 0) {
+	} else {
 		retval = 1;
 	}
 	// Residual Variance
-	*var = sumb * 1.0 /(N - p - q - M);
+	*var = sosqm(at,N+qd-1) /(N - p - q - M);
 	// Mean
 	if (M == 1) {
 		*thetac = b[0];
@@ -981,8 +979,10 @@ int nlalsm(double *vec,int N,int p,int delta, int q, double *phi,double *theta,
 		}
 	}
 
-	ludecomp(A,k,ipiv);
-	minverse(A,k,ipiv,varcovar);
+	if (k > 0) {
+		ludecomp(A,k,ipiv);
+		minverse(A,k,ipiv,varcovar);
+	}
 
 	//mdisplay(varcovar, 1, k*k);
 
@@ -1028,7 +1028,7 @@ int nlalsms(double *vec,int N,int p,int delta, int q, double *phi,double *theta,
 		int M,double *thetac,double *var,double eps,double *varcovar,double *residuals) {
 
 	int retval,i,j,l,k,t,t2,it,Norig,qd,itmax;
-	double lam,vmul,e1,di,eps2,stepsize,temp,tau,hmax,suminc,sumb,scale;
+	double lam,vmul,e1,di,eps2,stepsize,temp,hmax,suminc,sumb,scale;
 	double *inp,*b,*at,*at0,*x,*phi0,*theta0,*orig,*A,*g,*D,*h,*binc,*Atemp;
 	double *phiincx,*thetaincx,*atinc,*resat,*origval;
 	int *ipiv;
@@ -1320,11 +1320,9 @@ int nlalsms(double *vec,int N,int p,int delta, int q, double *phi,double *theta,
 		D[i] = sqrt(A[i*k + i]);
 	}
 
-	tau = array_max(D, k);
 
-	//printf("TAUMAX %g \n", tau);
 
-	while (hmax >= e1 && it < itmax) {
+	while (k > 0 && hmax >= e1 && it < itmax) {
 		it++;
 		for (i = 0; i < k; ++i) {
 			for (j = 0; j < k; ++j) {
@@ -1569,11 +1567,11 @@ int nlalsms(double *vec,int N,int p,int delta, int q, double *phi,double *theta,
 	if (it >= itmax) {
 		retval = 4;
 	}
-	else if (it < itmax && it > 0) {
+	else {
 		retval = 1;
 	}
 	// Residual Variance
-	*var = sumb * 1.0 / (N - p - q - lps - lqs - M);
+	*var = sosqm(at, N + qd - 1) / (N - p - q - lps - lqs - M);
 	// Mean
 	if (M == 1) {
 		*thetac = b[0];
@@ -1617,8 +1615,10 @@ int nlalsms(double *vec,int N,int p,int delta, int q, double *phi,double *theta,
 		}
 	}
 
-	ludecomp(A, k, ipiv);
-	minverse(A, k, ipiv, varcovar);
+	if (k > 0) {
+		ludecomp(A, k, ipiv);
+		minverse(A, k, ipiv, varcovar);
+	}
 
 	// parameters are ordered phi, theta, PHI, THETA, mean in the output
 
-- 
2.43.0


From e0f3c9a4add24d9fe8e8f298737e519b465f95a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:45 +0000
Subject: [PATCH 084/121] fix: Box-Jenkins fits: report the accepted estimate,
 not the last trial step

---
 src/boxjenkins.c | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/src/boxjenkins.c b/src/boxjenkins.c
index 9ec5eaf..0fc4028 100644
--- a/src/boxjenkins.c
+++ b/src/boxjenkins.c
@@ -961,10 +961,10 @@ int nlalsm(double *vec,int N,int p,int delta, int q, double *phi,double *theta,
 	// Parameters Phi and Theta
 	
 	for (i = 0; i < p;++i) {
-		phi[i] = phiinc[i];
+		phi[i] = b[M+i];
 	}
 	for (i = 0; i < q;++i) {
-		theta[i] = thetainc[i];
+		theta[i] = b[M+p+i];
 	}
 
 	for(i = 0; i < k;++i) {
@@ -996,7 +996,7 @@ int nlalsm(double *vec,int N,int p,int delta, int q, double *phi,double *theta,
 	}
 
 	for(i = qd-1; i < N+qd-1;++i) {
-		residuals[i-qd+1] = resat[i];
+		residuals[i-qd+1] = at[i];
 	}
 
 
@@ -1582,25 +1582,18 @@ int nlalsms(double *vec,int N,int p,int delta, int q, double *phi,double *theta,
 	// Parameters Phi and Theta
 
 	for (i = 0; i < p; ++i) {
-		phi[i] = -phiinc[i+1];
+		phi[i] = b[M + i];
 	}
 	for (i = 0; i < q; ++i) {
-		theta[i] = -thetainc[i+1];
+		theta[i] = b[M + p + i];
 	}
 
-	downsample(phisinc, s*lps + 1, s, phist1);
-	downsample(thetasinc, s*lqs + 1, s, thetast1);
-
-	//mdisplay(phist1, 1, lps + 1);
-	//mdisplay(thetast1, 1, lqs + 1);
-
-
 	for (i = 0; i < lps; ++i) {
-		phis[i] = -phist1[i + 1];
+		phis[i] = b[M + p + q + i];
 	}
 
 	for (i = 0; i < lqs; ++i) {
-		thetas[i] = -thetast1[i + 1];
+		thetas[i] = b[M + p + q + lps + i];
 	}
 
 	for (i = 0; i < k; ++i) {
@@ -1631,7 +1624,7 @@ int nlalsms(double *vec,int N,int p,int delta, int q, double *phi,double *theta,
 
 
 	for (i = qd - 1; i < N + qd - 1; ++i) {
-		residuals[i - qd + 1] = resat[i];
+		residuals[i - qd + 1] = at[i];
 	}
 	
 	//mdisplay(residuals, 1, N);
-- 
2.43.0


From 1f76ece3a5100d4b5a9f67db4158b5ae578d07ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:42 +0000
Subject: [PATCH 085/121] fix: Box-Jenkins fits: start from zero when the
 preliminary estimate is unusable

---
 src/boxjenkins.c | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/boxjenkins.c b/src/boxjenkins.c
index 0fc4028..5fe9114 100644
--- a/src/boxjenkins.c
+++ b/src/boxjenkins.c
@@ -706,6 +706,20 @@ int nlalsm(double *vec,int N,int p,int delta, int q, double *phi,double *theta,
 	//mdisplay(b,1,k);
 
     avaluem(inp,N,p,q,phi,theta,qd,at);
+
+	if (!(sosqm(at,N+qd-1) <= sosqm(inp,N))) {
+		// Unusable initial parameters, e.g. not invertible. Start from zero
+		for(i = M; i < k;++i) {
+			b[i] = 0.0;
+		}
+		for(i = 0; i < p;++i) {
+			phi[i] = 0.0;
+		}
+		for(i = 0; i < q;++i) {
+			theta[i] = 0.0;
+		}
+		avaluem(inp,N,p,q,phi,theta,qd,at);
+	}
 	
 	for(i = 0; i < N+qd-1;++i) {
 		resat[i] = at[i];
@@ -1219,6 +1233,20 @@ int nlalsms(double *vec,int N,int p,int delta, int q, double *phi,double *theta,
 
     avaluem(inp,N,s*lps+p,s*lqs+q,phix+1,thetax+1,qd,at);
 
+	if (!(sosqm(at, N + qd - 1) <= sosqm(inp, N))) {
+		// Unusable initial parameters, e.g. not invertible. Start from zero
+		for (i = M; i < k; ++i) {
+			b[i] = 0.0;
+		}
+		for (i = 1; i < s*lps + p + 1; ++i) {
+			phix[i] = 0.0;
+		}
+		for (i = 1; i < s*lqs + q + 1; ++i) {
+			thetax[i] = 0.0;
+		}
+		avaluem(inp,N,s*lps+p,s*lqs+q,phix+1,thetax+1,qd,at);
+	}
+
     //mdisplay(at,1,N+qd-1);
 
 	for (i = 0; i < N + qd - 1; ++i) {
-- 
2.43.0


From 40eaca8497b85f15521015500fa5c2929eae8f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:08 +0000
Subject: [PATCH 086/121] fix: as154, as154_seas: release the work array when
 the conditional start is refused

---
 src/emle.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/emle.c b/src/emle.c
index d6c2368..105f92d 100644
--- a/src/emle.c
+++ b/src/emle.c
@@ -1469,7 +1469,10 @@ int as154(double *inp, int N, int optmethod, int p, int d, int q, double *phi, d
 		Q = 0;
 
 		ERR = checkroots_cerr(phi, &p, theta, &q, NULL, &P, NULL, &Q);
-		if (ERR == 10 || ERR == 12) return ERR;
+		if (ERR == 10 || ERR == 12) {
+			free(x);
+			return ERR;
+		}
 
 		coeff = *wmean;
 	}
@@ -2711,7 +2714,10 @@ int as154_seas(double *inp, int N, int optmethod, int p, int d, int q, int s, in
 		css_seas(inp, N, optmethod, p, d, q, s, P, D, Q, phi, theta, PHI, THETA, wmean, var, resid, loglik, hess);
 
 		ERR = checkroots_cerr(phi, &p, theta, &q, PHI, &P, THETA, &Q);
-		if (ERR == 10 || ERR == 12) return ERR;
+		if (ERR == 10 || ERR == 12) {
+			free(inp2);
+			return ERR;
+		}
 
 		coeff = *wmean;
 	}
-- 
2.43.0


From f2347be77e4b4caa44614b3b337ec2cb2e2350ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:11 +0000
Subject: [PATCH 087/121] fix: rank: release the work arrays when the
 decomposition fails

---
 src/matrix.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/matrix.c b/src/matrix.c
index 87eba71..ac7238a 100644
--- a/src/matrix.c
+++ b/src/matrix.c
@@ -3012,6 +3012,9 @@ static int rank_c(double *A, int M,int N) {
 	qmax = q[0];
 	if ( ret != 0) {
 		printf("Failed to Compute SVD");
+		free(U);
+		free(V);
+		free(q);
 		return -1;
 	}
 
-- 
2.43.0


From 157baf1226787ab13a8b9d3a92b649b67f3192df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:39 +0000
Subject: [PATCH 088/121] fix: iswt: release the convolution object of every
 step

---
 src/wavelib.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/wavelib.c b/src/wavelib.c
index 7ac4a7a..1c37447 100644
--- a/src/wavelib.c
+++ b/src/wavelib.c
@@ -2300,6 +2300,11 @@ void iswt(wt_object wt, double *swtop) {
 
 			wconv(wt, cH0, N1, wt->wave->hpr, lf, oup00H);
 
+			if (wt->wave->lpr_len == wt->wave->hpr_len && (!strcmp(wt->cmethod, "fft") || !strcmp(wt->cmethod, "FFT"))) {
+				free_conv(wt->cobj);
+				wt->cfftset = 0;
+			}
+
 			for (i = lf - 1; i < 2 * len0 + lf - 1; ++i) {
 				oup01[i - lf + 1] = oup00L[i] + oup00H[i];
 			}
-- 
2.43.0


From 7aaab623589efbe261bc65eaff9daab0aad0f242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:15 +0000
Subject: [PATCH 089/121] fix: modwt_fft, imodwt_fft: release the index array

---
 src/wavelib.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wavelib.c b/src/wavelib.c
index 1c37447..f682cbd 100644
--- a/src/wavelib.c
+++ b/src/wavelib.c
@@ -2547,6 +2547,7 @@ static void modwt_fft(wt_object wt, const double *inp) {
 	free(sig);
 	free(cA);
 	free(cD);
+	free(index);
 	free(low_pass);
 	free(high_pass);
 	free_fft(fft_fd);
@@ -2871,6 +2872,7 @@ void imodwt_fft(wt_object wt, double *oup) {
 	free(sig);
 	free(cA);
 	free(cD);
+	free(index);
 	free(low_pass);
 	free(high_pass);
 	free_fft(fft_fd);
-- 
2.43.0


From 2d65edee67a9df4fe17e072dba43e6e9a8c7a2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:16 +0000
Subject: [PATCH 090/121] fix: free_auto: release the transform objects

---
 src/stats.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/stats.c b/src/stats.c
index 022e2e6..809f3d0 100644
--- a/src/stats.c
+++ b/src/stats.c
@@ -182,5 +182,7 @@ void autocorr_fft(auto_fft_object obj,double* vec,double* acorr, int M) {
 }
 
 void free_auto(auto_fft_object object) {
+	free_real_fft(object->fobj);
+	free_real_fft(object->iobj);
 	free(object);
 }
-- 
2.43.0


From 917a7a9769b6f3f9f6022ee4440e836bea56494e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:18 +0000
Subject: [PATCH 091/121] fix: periodogram, psd, free_spectrum: release buffers
 and transform objects

---
 src/spectrum.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/spectrum.c b/src/spectrum.c
index 6c1a1c7..84d414f 100644
--- a/src/spectrum.c
+++ b/src/spectrum.c
@@ -130,6 +130,8 @@ void periodogram(spectrum_fft_object obj,double* vec,double* spec, double *freq,
 		}
 	}	
 
+	free(inp);
+	free(oup);
 }
 
 void psd(spectrum_fft_object obj,double* vec,double* spec, double *freq, int side) {
@@ -212,6 +214,8 @@ void psd(spectrum_fft_object obj,double* vec,double* spec, double *freq, int sid
 		}
 	}	
 
+	free(inp);
+	free(oup);
 }
 
 void psd_autocovar(auto_fft_object obj,double *vec,double* spec, double *freq,int Nfft, int side) {
@@ -267,6 +271,10 @@ void psd_autocovar(auto_fft_object obj,double *vec,double* spec, double *freq,in
 }
 
 void free_spectrum(spectrum_fft_object object) {
+	if (object->fobj2 != object->fobj) {
+		free_fft(object->fobj2);
+	}
+	free_fft(object->fobj);
 	free(object);
 }
 
-- 
2.43.0


From 08bb1fdd2b378ace6482c8ddb63df3b991b99efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:20 +0000
Subject: [PATCH 092/121] fix: ur_df2: release the covariance matrix of every
 candidate lag

---
 src/unitroot.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/unitroot.c b/src/unitroot.c
index d24f114..3b3577d 100644
--- a/src/unitroot.c
+++ b/src/unitroot.c
@@ -233,6 +233,7 @@ void ur_df2(double *y, int N,const char* type, int *lags,const char *selectlags,
                 }
 
                 free_reg(fit);
+                free(varcovar);
             }
 
             ctemp = DBL_MAX;
@@ -250,7 +251,6 @@ void ur_df2(double *y, int N,const char* type, int *lags,const char *selectlags,
 
             free(critRes);
             free(XX);
-            free(varcovar);
         }
 
         XX = (double*)malloc(sizeof(double)*N2*(lags_+1));
-- 
2.43.0


From b26bf14353b873e1459e62949fbfb29efadd39d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:43 +0000
Subject: [PATCH 093/121] fix: arima, sarima, sarimax, ar, auto_arima objects:
 define all result fields before a fit

---
 src/ctsa.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index a713b7c..82283a8 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -31,7 +31,7 @@ arima_object arima_init(int p, int d, int q, int N) {
 	obj->retval = 0;
 	obj->cssml = 1;
 
-	for (i = 0; i < p + q; ++i) {
+	for (i = 0; i < p + q + N - d + (p + q + M)*(p + q + M); ++i) {
 		obj->params[i] = 0.0;
 	}
 	obj->phi = &obj->params[0];
@@ -43,6 +43,7 @@ arima_object arima_init(int p, int d, int q, int N) {
 	obj->optmethod = 5; // Default Method is 5
 	obj->mean = 0.0;
 	obj->var = 1.0;
+	obj->loglik = obj->aic = 0.0;
 	obj->lvcov = (p + q + M)*(p + q + M);
 	obj->ncoeff = p + q + M;
 
@@ -85,7 +86,7 @@ sarima_object sarima_init(int p, int d, int q,int s, int P,int D,int Q, int N) {
 	obj->retval = 0;
 	obj->cssml = 1;
 
-	for (i = 0; i < p + q+P+Q; ++i) {
+	for (i = 0; i < p + q + P + Q + N - d - s*D + (p + q + P + Q + M)*(p + q + P + Q + M); ++i) {
 		obj->params[i] = 0.0;
 	}
 	obj->phi = &obj->params[0];
@@ -99,6 +100,7 @@ sarima_object sarima_init(int p, int d, int q,int s, int P,int D,int Q, int N) {
 	obj->optmethod = 5; // Default Method is 5
 	obj->mean = 0.0;
 	obj->var = 1.0;
+	obj->loglik = obj->aic = 0.0;
 	obj->lvcov = (p + q + P + Q + M)*(p + q + P + Q + M);
 	obj->ncoeff = p + q + P + Q + M;
 
@@ -135,7 +137,7 @@ ar_object ar_init(int method, int N) {
 	obj->retval = 0;
 	obj->method = method;
 
-	for (i = 0; i < p; ++i) {
+	for (i = 0; i < p + N; ++i) {
 		obj->params[i] = 0.0;
 	}
 	obj->phi = &obj->params[0];
@@ -144,6 +146,7 @@ ar_object ar_init(int method, int N) {
 	obj->optmethod = 5;// Default Method is 5
 	obj->mean = 0.0;
 	obj->var = 1.0;
+	obj->aic = 0.0;
 
 	return obj;
 }
@@ -220,6 +223,7 @@ sarimax_object sarimax_init(int p, int d, int q,int P, int D, int Q,int s, int r
 	obj->optmethod = 5; // Default Method is 5
 	obj->mean = 0.0;
 	obj->var = 1.0;
+	obj->loglik = obj->aic = 0.0;
 	obj->lvcov = (p + q + P + Q + ncxreg )*(p + q + P + Q + ncxreg );
 	obj->ncoeff = p + q + P + Q + ncxreg ;
 
@@ -292,6 +296,7 @@ auto_arima_object auto_arima_init(int *pdqmax,int *PDQmax,int s, int r, int N) {
 	obj->optmethod = 5; // Default Method is 5
 	obj->mean = 0.0;
 	obj->var = 1.0;
+	obj->loglik = 0.0;
 	obj->lvcov = (pmax + qmax + Pmax + Qmax + ncxreg )*(pmax + qmax + Pmax + Qmax + ncxreg );
 	obj->ncoeff = pmax + qmax + Pmax + Qmax + ncxreg ;
 
-- 
2.43.0


From e1e44828a459004658b8c89e31b342dad3b69dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:56 +0000
Subject: [PATCH 094/121] fix: Nelder-Mead: evaluate the objective when there
 are no variables

---
 src/neldermead.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/neldermead.c b/src/neldermead.c
index bcbb333..01d2613 100644
--- a/src/neldermead.c
+++ b/src/neldermead.c
@@ -33,6 +33,13 @@ int nel_min(custom_function *funcpt,double *xc,int N,double *dx,double fsval,int
 	double *P,*Y,*PB,*PS,*PSS,*PM,*PL,*xi,*xmin;
 	double ysum,yavg,s,dval;
 
+	if (N == 0) {
+		// No variables. Evaluate the function so that the caller's state is that of a completed search
+		*niter = 0;
+		FUNCPT_EVAL(funcpt,xc,N);
+		return 1;
+	}
+
 	rcode = 0;
 	reqmin = eps;
 	rcoeff = 1.0;
-- 
2.43.0


From 94fc34ce52b18c16bb687050c358dc419b70141b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:50 +0000
Subject: [PATCH 095/121] fix: arima_summary, sarimax_summary: sign of MA terms
 in the equation

---
 src/ctsa.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index 82283a8..f2ff65e 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -3402,7 +3402,7 @@ void sarima_summary(sarima_object obj) {
 		if (obj->theta[i] > 0) {
 			printf("- %g*a[t - %d%s", fabs(obj->theta[i]), i + 1, "]");
 		}
-		else if (obj->phi[i] < 0) {
+		else if (obj->theta[i] < 0) {
 			printf("+ %g*a[t - %d%s", fabs(obj->theta[i]), i + 1, "] ");
 		}
 	}
@@ -3514,7 +3514,7 @@ void arima_summary(arima_object obj) {
 		if (obj->theta[i] > 0) {
 			printf("- %g*a[t - %d%s", fabs(obj->theta[i]), i + 1, "]");
 		}
-		else if (obj->phi[i] < 0) {
+		else if (obj->theta[i] < 0) {
 			printf("+ %g*a[t - %d%s", fabs(obj->theta[i]), i + 1, "] ");
 		}
 	}
@@ -3666,7 +3666,7 @@ void sarimax_summary(sarimax_object obj) {
 		if (obj->theta[i] > 0) {
 			printf("- %g*a[t - %d%s", fabs(obj->theta[i]), i + 1, "]");
 		}
-		else if (obj->phi[i] < 0) {
+		else if (obj->theta[i] < 0) {
 			printf("+ %g*a[t - %d%s", fabs(obj->theta[i]), i + 1, "] ");
 		}
 	}
-- 
2.43.0


From bef71993dd9fa550864432e8c65b5360c4e8c481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:09 +0000
Subject: [PATCH 096/121] fix: arima_summary: the constant of the equation is
 mean*(1 - sum(phi))

---
 src/ctsa.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index f2ff65e..f108668 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -3412,6 +3412,7 @@ void sarima_summary(sarima_object obj) {
 
 void arima_summary(arima_object obj) {
 	int i, pq,t;
+	double wmean;
 	pq = obj->p + obj->q + obj->M;
 	if (obj->method == 0 || obj->method == 1) {
 		printf("\n\nExit Status \n");
@@ -3506,8 +3507,12 @@ void arima_summary(arima_object obj) {
 	}
 
 	printf("=");
-	if (obj->mean != 0.0) {
-		printf(" %g +", obj->mean);
+	wmean = obj->mean;
+	for (i = 0; i < obj->p; ++i) {
+		wmean -= obj->phi[i] * obj->mean;
+	}
+	if (wmean != 0.0) {
+		printf(" %g +", wmean);
 	}
 	printf(" a[t] ");
 	for (i = 0; i < obj->q; ++i) {
-- 
2.43.0


From 41245e2e993a7c44264a2c9bf21ff57434692360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:13 +0000
Subject: [PATCH 097/121] fix: auto_arima_summary: rows and standard errors of
 models with drift

---
 src/ctsa.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index f108668..e42669e 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -3693,7 +3693,8 @@ void sarimax_summary(sarimax_object obj) {
 void auto_arima_summary(auto_arima_object obj) {
 	int i, pq,t,ncxreg,mean,drift;
 	pq = obj->p + obj->q + obj->P + obj->Q + obj->M;
-	mean = obj->M - obj->r;
+	drift = obj->idrift == 1 ? 1 : 0;
+	mean = obj->M - obj->r - drift;
 
 	if (obj->method == 0 || obj->method == 1) {
 		printf("\n\nExit Status \n");
@@ -3762,7 +3763,7 @@ void auto_arima_summary(auto_arima_object obj) {
 	} else {
 		printf("%-17s%-20g \n", "TREND", 0.0);
 	}
-	for(i = ncxreg; i < obj->r; ++i) {
+	for(i = ncxreg; i < obj->r + drift; ++i) {
 		printf("%-17s%-20g%-20g \n", "EXOG", obj->exog[i], sqrt(obj->vcov[t + pq * t]));
 		t++;
 	}
-- 
2.43.0


From ffe613ed950468d7704dec1c25a7d0cfd8519c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:49 +0000
Subject: [PATCH 098/121] fix: sarimax_summary, auto_arima_summary: exit status
 of CSS fits

---
 src/ctsa.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index e42669e..a070247 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -3547,7 +3547,7 @@ void sarimax_summary(sarimax_object obj) {
 	pq = obj->p + obj->q + obj->P + obj->Q + obj->M;
 	mean = obj->M - obj->r;
 	
-	if (obj->method == 0 || obj->method == 1) {
+	if (obj->method == 0 || obj->method == 1 || obj->method == 2) {
 		printf("\n\nExit Status \n");
 		printf("Return Code : %d \n", obj->retval);
 		printf("Exit Message : ");
@@ -3696,7 +3696,7 @@ void auto_arima_summary(auto_arima_object obj) {
 	drift = obj->idrift == 1 ? 1 : 0;
 	mean = obj->M - obj->r - drift;
 
-	if (obj->method == 0 || obj->method == 1) {
+	if (obj->method == 0 || obj->method == 1 || obj->method == 2) {
 		printf("\n\nExit Status \n");
 		printf("Return Code : %d \n", obj->retval);
 		printf("Exit Message : ");
-- 
2.43.0


From 52bc271047373d873bdb4b4dab732d34c74093db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:52 +0000
Subject: [PATCH 099/121] fix: arima_summary, sarima_summary: messages for
 return codes 10 and 12

---
 src/ctsa.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/ctsa.c b/src/ctsa.c
index a070247..831f13f 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -3289,6 +3289,12 @@ void sarima_summary(sarima_object obj) {
 		else if (obj->retval == 4) {
 			printf("Optimization Routine didn't converge");
 		}
+		else if (obj->retval == 10) {
+			printf("Nonstationary AR part");
+		}
+		else if (obj->retval == 12) {
+			printf("Nonstationary Seasonal AR part");
+		}
 		else if (obj->retval == 15) {
 			printf("Optimization Routine Encountered Inf/Nan Values");
 		}
@@ -3428,6 +3434,12 @@ void arima_summary(arima_object obj) {
 		else if (obj->retval == 4) {
 			printf("Optimization Routine didn't converge");
 		}
+		else if (obj->retval == 10) {
+			printf("Nonstationary AR part");
+		}
+		else if (obj->retval == 12) {
+			printf("Nonstationary Seasonal AR part");
+		}
 		else if (obj->retval == 15) {
 			printf("Optimization Routine Encountered Inf/Nan Values");
 		}
-- 
2.43.0


From 52b49ceace9e9cd40fbeb8d6a9ac635bff4a7ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:15 +0000
Subject: [PATCH 100/121] fix: arima_exec, sarima_exec, sarimax_exec: no
 criteria left over from an earlier fit

---
 src/ctsa.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/ctsa.c b/src/ctsa.c
index 831f13f..87ae107 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -350,6 +350,9 @@ void arima_exec(arima_object obj, double *inp) {
 		M = 1;
 	}
 
+	obj->loglik = 0.0;
+	obj->aic = 0.0;
+
 	if (obj->method == 0) {
 		obj->retval = as154(inp, obj->N, obj->optmethod, obj->p, obj->d, obj->q, obj->params, obj->params + p, &obj->mean, &obj->var, obj->params + p + q,&obj->loglik,
 			obj->params + p + q + N - d,obj->cssml);
@@ -385,6 +388,9 @@ void sarimax_exec(sarimax_object obj, double *inp,double *xreg)  {
 
 	M = obj->M;
 
+	obj->loglik = 0.0;
+	obj->aic = 0.0;
+
 	if (obj->method == 0) {
 		cssml = 1;
 		obj->retval = as154x(inp, obj->N, xreg, obj->optmethod, obj->p, obj->d, obj->q, obj->s, obj->P, obj->D, obj->Q, obj->params, obj->params + p, obj->params + p + q, 
@@ -547,6 +553,9 @@ void sarima_exec(sarima_object obj, double *inp) {
 
 	M = obj->M;
 
+	obj->loglik = 0.0;
+	obj->aic = 0.0;
+
 	if (obj->method == 0) {
 		obj->retval = as154_seas(inp, obj->N, obj->optmethod, obj->p, obj->d, obj->q, obj->s, obj->P, obj->D, obj->Q, obj->params, obj->params + p, obj->params + p + q, 
 			obj->params + p + q + P, &obj->mean, &obj->var, obj->params + p + q + P + Q, &obj->loglik, obj->params + p + q + P + Q + N - d - s*D,obj->cssml);
-- 
2.43.0


From ba4faf0f28b5bb99da4581119a6603028cda70dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:09 +0000
Subject: [PATCH 101/121] fix: dwpt: an object can be used more than once

---
 src/wavelib.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wavelib.c b/src/wavelib.c
index f682cbd..8e33f55 100644
--- a/src/wavelib.c
+++ b/src/wavelib.c
@@ -985,7 +985,7 @@ void dwpt(wpt_object wt, const double *inp) {
 	temp = 1;
 	elength = 0;
 	size = wt->wave->filtlength;
-	nodes = wt->nodes;
+	nodes = ipow2(J + 1) - 2; // wt->nodes is the size of the selected basis after the first call
 	n1 = nodes + 1;
 	for (i = 0; i < J; ++i) {
 		temp *= 2;
-- 
2.43.0


From ed26dabde12a7fd94fc113f52faa6fccba7f1a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:50 +0000
Subject: [PATCH 102/121] fix: minfit, svd_gr2: the thresholds below which a
 column counts as zero are Golub and Reinsch's smallest number over eps, not
 an absolute 2e-16 (systems in small units were solved as if rank deficient)

---
 src/lls.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lls.c b/src/lls.c
index 8652fdf..492cc9d 100644
--- a/src/lls.c
+++ b/src/lls.c
@@ -818,7 +818,7 @@ int svd_gr2(double *A,int M,int N,double *U,double *V,double *q) {
 	e = (double*) malloc(sizeof(double) * N);
 	ierr = 0;
 	eps = macheps();
-	tol = eps * eps;
+	tol = DBL_MIN / eps;
 	g = x = 0.0;
 
 	for(i = 0; i < M*N;++i) {
@@ -1115,7 +1115,7 @@ int minfit(double *AB,int M,int N,int P,double *q) {
 	e = (double*) malloc(sizeof(double) * N);
 	ierr = 0;
 	eps = macheps();
-	tol = eps * eps;
+	tol = DBL_MIN / eps;
 	g = x = 0.0;
 	np = N + P;
 
-- 
2.43.0


From 75505ed4abe3a485664aee3a4c64250484760184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:15 +0000
Subject: [PATCH 103/121] fix: css, as154 and their seasonal and regressor
 versions: the mean and the regressors' coefficients are searched for in units
 of their standard errors (the fit depended on the units of the series: with a
 mean or regressors, half of the fits at other scales stopped short of the
 optimum)

---
 src/emle.c | 137 +++++++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 117 insertions(+), 20 deletions(-)

diff --git a/src/emle.c b/src/emle.c
index 105f92d..ee97312 100644
--- a/src/emle.c
+++ b/src/emle.c
@@ -1166,6 +1166,95 @@ C*/
 	return ifault;
 }
 
+/*
+	The optimisers treat all the parameters alike, with steps of the order of one. The mean and the
+	coefficients of the regressors are therefore passed to them as deviations from the starting
+	values in units of the standard errors of these values (optim's parscale in R). The level of the
+	function is taken off as it depends on the units of the series.
+*/
+
+typedef struct units_set {
+	double(*funcpt)(double *x, int N, void *params);
+	void *params;
+	int pq;
+	int M;// the last M of the pq parameters are rescaled
+	double f0;
+	double *origin;
+	double *unit;
+	double *b;
+} units_object;
+
+static void to_units(units_object *obj, double *t) {
+	int i, k;
+
+	for (i = 0; i < obj->pq - obj->M; ++i) {
+		obj->b[i] = t[i];
+	}
+	for (i = 0; i < obj->M; ++i) {
+		k = obj->pq - obj->M + i;
+		obj->b[k] = obj->origin[i] + obj->unit[i] * t[k];
+	}
+}
+
+static double funits(double *t, int pq, void *params) {
+	units_object *obj = (units_object*)params;
+
+	to_units(obj, t);
+
+	return (*(obj->funcpt))(obj->b, pq, obj->params) - obj->f0;
+}
+
+static custom_function units_init(units_object *obj, double(*funcpt)(double *x, int N, void *params), void *params, int pq, int M, double *b, double *sigma) {
+	int i;
+	custom_function fn = { funits, obj };
+
+	obj->funcpt = funcpt;
+	obj->params = params;
+	obj->pq = pq;
+	obj->M = M;
+	obj->b = (double*)malloc(sizeof(double)* (pq + 2 * M));
+	obj->origin = obj->b + pq;
+	obj->unit = obj->origin + M;
+
+	for (i = 0; i < M; ++i) {
+		obj->origin[i] = b[pq - M + i];
+		obj->unit[i] = sigma[i] > 0.0 ? sigma[i] : 1.0;
+		b[pq - M + i] = 0.0;
+	}
+
+	obj->f0 = 0.0;
+	obj->f0 = funits(b, pq, obj);
+	if (!(fabs(obj->f0) < DBL_MAX)) obj->f0 = 0.0;
+
+	return fn;
+}
+
+// The estimates and their covariances in the units of the data
+
+static void units_free(units_object *obj, double *tf, double *hess) {
+	int i, j, k;
+
+	to_units(obj, tf);
+	for (i = 0; i < obj->pq; ++i) {
+		tf[i] = obj->b[i];
+	}
+	for (i = 0; i < obj->M; ++i) {
+		k = obj->pq - obj->M + i;
+		for (j = 0; j < obj->pq; ++j) {
+			hess[k * obj->pq + j] *= obj->unit[i];
+		}
+		for (j = 0; j < obj->pq; ++j) {
+			hess[j * obj->pq + k] *= obj->unit[i];
+		}
+	}
+	free(obj->b);
+}
+// Standard error of the mean
+
+static double stderr_mean(double *x, int N) {
+	return sqrt(var(x, N) / N);
+}
+
 double fcss(double *b, int pq, void *params) {
 	double value,ssq,temp;
 	int ip, iq, N,i,ncond,j,jm,iter;
@@ -1236,8 +1325,9 @@ int css(double *inp, int N, int optmethod, int p, int d, int q, double *phi, dou
 	int i, pq, retval, length,M,ret;
 	double *b, *tf, *x,*dx,*thess;
 	int *ipiv;
-	double maxstep;
+	double maxstep,sigma;
 	alik_css_object obj;
+	units_object units;
 
 	x = (double*)malloc(sizeof(double)* (N - d));
 
@@ -1293,7 +1383,9 @@ int css(double *inp, int N, int optmethod, int p, int d, int q, double *phi, dou
 		obj->x[i] = 0.0;
 	}
 
-	custom_function fcss_min = { fcss, obj };
+	sigma = 10.0 * stderr_mean(x, N);
+
+	custom_function fcss_min = units_init(&units, fcss, obj, pq, obj->M, b, &sigma);
 	retval = fminunc(&fcss_min, NULL, pq, b, maxstep, optmethod, tf);
 
 	if (retval == 0) {
@@ -1322,6 +1414,7 @@ int css(double *inp, int N, int optmethod, int p, int d, int q, double *phi, dou
 
 	ludecomp(thess, pq, ipiv);
 	minverse(thess, pq, ipiv, hess);
+	units_free(&units, tf, hess);
 
 	for (i = 0; i < p; ++i) {
 		phi[i] = tf[i];
@@ -1451,6 +1544,7 @@ int as154(double *inp, int N, int optmethod, int p, int d, int q, double *phi, d
 	int *ipiv;
 	double maxstep,sigma,coeff;
 	alik_object obj;
+	units_object units;
 	reg_object fit;
 	//custom_function as154_min;
 
@@ -1549,7 +1643,7 @@ int as154(double *inp, int N, int optmethod, int p, int d, int q, double *phi, d
 		obj->x[i] = 0.0;
 	}
 
-	custom_function as154_min = { fas154, obj };
+	custom_function as154_min = units_init(&units, fas154, obj, pq, obj->M, b, &sigma);
 	retval = fminunc(&as154_min, NULL, pq, b,maxstep, optmethod, tf);
 
 	if (retval == 0) {
@@ -1586,6 +1680,7 @@ int as154(double *inp, int N, int optmethod, int p, int d, int q, double *phi, d
 
 	ludecomp(thess, pq, ipiv);
 	minverse(thess, pq, ipiv, hess);
+	units_free(&units, tf, hess);
 
 
 	for (i = 0; i < p; ++i) {
@@ -1631,6 +1726,7 @@ int as154x(double *inp, int N, double *xreg, int optmethod, int p, int d, int q,
 	int *ipiv;
 	double maxstep;
 	xlik_object obj;
+	units_object units;
 	reg_object fit;
 
 	length = N;// length of xreg as x is differenced first
@@ -1735,6 +1831,7 @@ int as154x(double *inp, int N, double *xreg, int optmethod, int p, int d, int q,
 
 
 	orig = 0;
+	sigma = NULL;
 
 	if (ncxreg > 0) {
 		if (ncxreg == 1) orig = 1;
@@ -1824,7 +1921,7 @@ int as154x(double *inp, int N, double *xreg, int optmethod, int p, int d, int q,
 	}
 
 
-	custom_function as154_min = { fas154x_seas, obj };
+	custom_function as154_min = units_init(&units, fas154x_seas, obj, pq, ncxreg, b, sigma);
 	retval = fminunc(&as154_min, NULL, pq, b,maxstep, optmethod, tf);
 
 	if (retval == 0) {
@@ -1850,14 +1947,10 @@ int as154x(double *inp, int N, double *xreg, int optmethod, int p, int d, int q,
 
 
 
-	for (i = 0; i < pq - ncxreg; ++i) {
+	for (i = 0; i < pq; ++i) {
 		dx[i] = 1.0;
 	}
 
-	for(i = 0; i < ncxreg; ++i) {
-		dx[pq - ncxreg + i] = sigma[i] > 0.0 ? 1.0 / sigma[i] : 1.0; // dx is the inverse of the typical size
-	}
-
 	hessian_fd(&as154_min, tf, pq, dx, obj->eps, hess);
 	
 	mtranspose(hess, pq, pq, thess);
@@ -1870,6 +1963,7 @@ int as154x(double *inp, int N, double *xreg, int optmethod, int p, int d, int q,
 
 	ludecomp(thess, pq, ipiv);
 	minverse(thess, pq, ipiv, hess);
+	units_free(&units, tf, hess);
 
 
 	for (i = 0; i < p; ++i) {
@@ -2035,8 +2129,9 @@ int css_seas(double *inp, int N, int optmethod, int p, int d, int q, int s, int
 	int i, pq, retval, length, offset,ret;
 	double *b, *tf, *x, *inp2,*dx,*thess;
 	int *ipiv;
-	double maxstep;
+	double maxstep,sigma;
 	alik_css_seas_object obj;
+	units_object units;
 	//custom_function as154_min;
 
 	inp2 = (double*)malloc(sizeof(double)* (N - s*D));
@@ -2114,7 +2209,9 @@ int css_seas(double *inp, int N, int optmethod, int p, int d, int q, int s, int
 		obj->x[offset + i] = 0.0;
 	}
 
-	custom_function css_min = { fcss_seas, obj };
+	sigma = 10.0 * stderr_mean(x, N);
+
+	custom_function css_min = units_init(&units, fcss_seas, obj, pq, obj->M, b, &sigma);
 	retval = fminunc(&css_min, NULL, pq, b, maxstep, optmethod, tf);
 	if (retval == 0) {
 		ret = 0;
@@ -2144,6 +2241,7 @@ int css_seas(double *inp, int N, int optmethod, int p, int d, int q, int s, int
 
 	ludecomp(thess, pq, ipiv);
 	minverse(thess, pq, ipiv, hess);
+	units_free(&units, tf, hess);
 
 	for (i = 0; i < p; ++i) {
 		phi[i] = tf[i];
@@ -2314,6 +2412,7 @@ int cssx(double *inp, int N, double *xreg, int optmethod, int p, int d, int q, i
 	int *ipiv;
 	double maxstep;
 	xlik_css_object obj;
+	units_object units;
 	reg_object fit;
 
 	inp2 = (double*)malloc(sizeof(double)* (N - s*D));
@@ -2418,6 +2517,7 @@ int cssx(double *inp, int N, double *xreg, int optmethod, int p, int d, int q, i
 
 
 	orig = 0;
+	sigma = NULL;
 
 	if (ncxreg > 0) {
 		if (ncxreg == 1) orig = 1;
@@ -2497,7 +2597,7 @@ int cssx(double *inp, int N, double *xreg, int optmethod, int p, int d, int q, i
 		}
 	}
 
-	custom_function css_min = { fcssx, obj };
+	custom_function css_min = units_init(&units, fcssx, obj, pq, ncxreg, b, sigma);
 	retval = fminunc(&css_min, NULL, pq, b, maxstep, optmethod, tf);
 	if (retval == 0) {
 		ret = 0;
@@ -2512,14 +2612,10 @@ int cssx(double *inp, int N, double *xreg, int optmethod, int p, int d, int q, i
 		ret = 1;
 	}
 
-	for (i = 0; i < pq - ncxreg; ++i) {
+	for (i = 0; i < pq; ++i) {
 		dx[i] = 1.0;
 	}
 	
-	for(i = 0; i < ncxreg; ++i) {
-		dx[pq - ncxreg + i] = sigma[i] > 0.0 ? 1.0 / sigma[i] : 1.0; // dx is the inverse of the typical size
-	}
-	
 
 	hessian_fd(&css_min, tf, pq, dx, obj->eps, hess);
 
@@ -2532,6 +2628,7 @@ int cssx(double *inp, int N, double *xreg, int optmethod, int p, int d, int q, i
 
 	ludecomp(thess, pq, ipiv);
 	minverse(thess, pq, ipiv, hess);
+	units_free(&units, tf, hess);
 
 	for (i = 0; i < p; ++i) {
 		phi[i] = tf[i];
@@ -2698,6 +2795,7 @@ int as154_seas(double *inp, int N, int optmethod, int p, int d, int q, int s, in
 	int *ipiv;
 	double maxstep,coeff,sigma;
 	alik_seas_object obj;
+	units_object units;
 	reg_object fit;
 	//custom_function as154_min;
 	
@@ -2820,7 +2918,7 @@ int as154_seas(double *inp, int N, int optmethod, int p, int d, int q, int s, in
 	}
 	//printf("\n %d %g ", pq,maxstep);
 
-	custom_function as154_min = { fas154_seas, obj };
+	custom_function as154_min = units_init(&units, fas154_seas, obj, pq, obj->M, b, &sigma);
 	retval = fminunc(&as154_min, NULL, pq, b, maxstep, optmethod, tf);
 	if (retval == 0) {
 		ret = 0;
@@ -2849,8 +2947,6 @@ int as154_seas(double *inp, int N, int optmethod, int p, int d, int q, int s, in
 		invertroot(Q,tf+p+q+P);
 	}
 
-	//if (obj->M == 1) dx[pq - 1] = sigma;
-
 	hessian_fd(&as154_min, tf, pq, dx, obj->eps, hess);
 
 	mtranspose(hess, pq, pq, thess);
@@ -2863,6 +2959,7 @@ int as154_seas(double *inp, int N, int optmethod, int p, int d, int q, int s, in
 
 	ludecomp(thess, pq, ipiv);
 	minverse(thess, pq, ipiv, hess);
+	units_free(&units, tf, hess);
 
 	//mdisplay(hess,pq,pq);
 
-- 
2.43.0


From 82ad663462da535577c7a9b6e112c4cc7e8de9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:30 +0000
Subject: [PATCH 104/121] fix: ndiffs: a series too short for the regression of
 the test is not differenced further (the process was ended by the t quantile
 with no degrees of freedom)

---
 src/autoutils.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/autoutils.c b/src/autoutils.c
index 45921a7..a1aab55 100644
--- a/src/autoutils.c
+++ b/src/autoutils.c
@@ -12,7 +12,18 @@ static int runstattests(double *x, int N, const char * test,const char *mtype,do
 	double cprobs[3] = {0,0,0};
 	double auxstat[2] = {0,0};
     double teststat[3] = {0,0,0};
-	int laux,pN,cvrows,cvcols,ltstat;
+	int laux,pN,cvrows,cvcols,ltstat,trend,dof;
+
+    // No verdict, and so no further difference, without residual degrees of freedom in the regression of the test
+    trend = !strcmp(mtype,"trend");
+    if (!strcmp(test,"kpss")) {
+        dof = N - 2*trend;
+    } else if (!strcmp(test,"pp")) {
+        dof = (N - 1) - (2 + trend);
+    } else {
+        dof = (N - 2) - (3 + trend);
+    }
+    if (dof < 1) return 0;
 
     if (!strcmp(test,"kpss")) {
         if (!strcmp(mtype,"level")) {
-- 
2.43.0


From 98c4c56202aff43289a4036ead2eb76c5e4cd303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:58 +0000
Subject: [PATCH 105/121] fix: mase: no buffer is allocated (it was never used
 nor released)

---
 src/errors.c | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/errors.c b/src/errors.c
index f3bd2e8..ea5ea9e 100644
--- a/src/errors.c
+++ b/src/errors.c
@@ -118,13 +118,10 @@ double mpe(double *predicted, double *actual, int N) {
 
 double mase(double *predicted, double *actual, int N, double *tseries, int length) {
     double err,temp,den;
-    double *dif;
     int i;
 
     // tseries : Only training values are included
 
-    dif = (double*)malloc(sizeof(double)* (N-1));
-
     temp = 0.0;
 
     for(i = 1; i < length;++i) {
-- 
2.43.0


From e1aedb2a52dd4790676bf98035706b0d0aba5a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:26 +0000
Subject: [PATCH 106/121] fix: nls: the variables are scaled by the search
 itself also after an nls_scale on the same object (the scale factors were
 read from uninitialised memory)

---
 src/optimc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/optimc.c b/src/optimc.c
index b4b3e59..1219155 100644
--- a/src/optimc.c
+++ b/src/optimc.c
@@ -513,6 +513,7 @@ void nls(nls_object obj, custom_funcmult *funcmult, custom_jacobian *jacobian,
 
 	M = obj->M;
 	N = obj-> N;
+	obj->mode = 1;
 	nprint = 0;
 
 	fvec = (double*) malloc(sizeof(double) *M);
-- 
2.43.0


From 1b2af20fbd05ed8fc451cd090fc1f7bfcd32211c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:42 +0000
Subject: [PATCH 107/121] fix: anova_list: the models are numbered 1, 2, ...
 (the first was printed as model 0, the next as model 2)

---
 src/regression.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/regression.c b/src/regression.c
index cd9dbb1..5ef2438 100644
--- a/src/regression.c
+++ b/src/regression.c
@@ -667,7 +667,7 @@ void anova_list(reg_object *list, int N) {
 	printf("\n");
 	printf("ANOVA Multiple Models : \n");
 	printf("%-10s%-25s%-20s%-20s%-20s \n","Model", "Res.Df", "RSS", "Df", "Sum of Sq");
-	printf("%-10d%-25d%-20lf \n", 0,
+	printf("%-10d%-25d%-20lf \n", 1,
 		list[0]->df_RSS, list[0]->RSS);
 	for(i = 1; i < N;++i) {
 		printf("%-10d%-25d%-20lf%-20d%-20lf \n", i+1,
-- 
2.43.0


From c7cbcd9040630453fc93e91771f581af99067cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:45 +0000
Subject: [PATCH 108/121] fix: getDWTmra, getSWTmra, getMODWTmra: the
 components of the coefficients that are passed, not of wt->output

---
 src/wavelib.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/wavelib.c b/src/wavelib.c
index 8e33f55..7b61787 100644
--- a/src/wavelib.c
+++ b/src/wavelib.c
@@ -815,13 +815,13 @@ double *getDWTmra(wt_object wt, double *wavecoeffs) {
 	
 
 	// Approximation MRA
-	getDWTRecCoeff(wt->output + access, wt->length, "appx", wt->ext, J, J, wt->wave->lpr, wt->wave->hpr, wt->wave->lpr_len, wt->siglength, mra);
+	getDWTRecCoeff(wavecoeffs + access, wt->length, "appx", wt->ext, J, J, wt->wave->lpr, wt->wave->hpr, wt->wave->lpr_len, wt->siglength, mra);
 
 	// Details MRA
 	N = wt->siglength;
 	for (i = J; i > 0; --i) {
 		access += wt->length[J - i];
-		getDWTRecCoeff(wt->output + access, wt->length, "det", wt->ext, i, J, wt->wave->lpr, wt->wave->hpr, wt->wave->lpr_len, wt->siglength, mra+N);
+		getDWTRecCoeff(wavecoeffs + access, wt->length, "det", wt->ext, i, J, wt->wave->lpr, wt->wave->hpr, wt->wave->lpr_len, wt->siglength, mra+N);
 		N += wt->siglength;
 	}
 	
@@ -2179,13 +2179,13 @@ double *getSWTmra(wt_object wt, double *wavecoeffs) {
 
 
 	// Approximation MRA
-	getSWTRecCoeff(wt->output + access, wt->length, "appx", J, J, wt->wave->lpr, wt->wave->hpr, wt->wave->lpr_len, wt->siglength, mra);
+	getSWTRecCoeff(wavecoeffs + access, wt->length, "appx", J, J, wt->wave->lpr, wt->wave->hpr, wt->wave->lpr_len, wt->siglength, mra);
 	// Details MRA
 	N = wt->siglength;
 	
 	for (i = J; i > 0; --i) {
 		access += wt->length[J - i];
-		getSWTRecCoeff(wt->output + access, wt->length, "det", i, J, wt->wave->lpr, wt->wave->hpr, wt->wave->lpr_len, wt->siglength, mra+N);
+		getSWTRecCoeff(wavecoeffs + access, wt->length, "det", i, J, wt->wave->lpr, wt->wave->hpr, wt->wave->lpr_len, wt->siglength, mra+N);
 		N += wt->siglength;
 	}
 	
@@ -2716,7 +2716,7 @@ double* getMODWTmra(wt_object wt, double *wavecoeffs) {
 
 	// 
 	for (i = 0; i < N; ++i) {
-		sig[i].re = (fft_type)wt->output[i];
+		sig[i].re = (fft_type)wavecoeffs[i];
 		sig[i].im = 0.0;
 		ninp[i].re = 0.0;
 		ninp[i].im = 0.0;
@@ -2734,7 +2734,7 @@ double* getMODWTmra(wt_object wt, double *wavecoeffs) {
 
 	for (iter = 0; iter < J; ++iter) {
 		for (i = 0; i < N; ++i) {
-			sig[i].re = (fft_type)wt->output[lenacc+i];
+			sig[i].re = (fft_type)wavecoeffs[lenacc+i];
 			sig[i].im = 0.0;
 			ninp[i].re = 0.0;
 			ninp[i].im = 0.0;
-- 
2.43.0


From 465a2ebe7eb05767214e80758e79bae45c1de659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:49 +0000
Subject: [PATCH 109/121] fix: wpt_summary: the node of the undecomposed signal
 is listed when it is the best basis

---
 src/wavelib.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/wavelib.c b/src/wavelib.c
index 7b61787..278acc0 100644
--- a/src/wavelib.c
+++ b/src/wavelib.c
@@ -3173,6 +3173,9 @@ void wpt_summary(wpt_object wt) {
 			}
 		}
 	}
+	if (wt->basisvector[0] == 1) {
+		printf("Node %d %d Access : output[%d] Length : %d \n", 0, 0, it2, wt->length[J + 1]);
+	}
 
 	printf("\n");
 
-- 
2.43.0


From 222ffc529847ff0150eabe46d6ecc1c0d2e14460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:30 +0000
Subject: [PATCH 110/121] fix: swt, direct convolution: the upsampled filter
 wraps around a shorter series (the loop over the filter restarted for ever
 and ran out of its bounds)

---
 src/wtmath.c | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/src/wtmath.c b/src/wtmath.c
index 6566ea8..bf86dd6 100644
--- a/src/wtmath.c
+++ b/src/wtmath.c
@@ -132,46 +132,44 @@ void modwt_per_stride(int M, double *inp, int N, double *filt, int lpd_len, doub
 }
 
 void swt_per_stride(int M, double *inp, int N, double *lpd, double*hpd, int lpd_len, double *cA, int len_cA, double *cD, int istride, int ostride) {
-	int l, l2, isodd, i, t, len_avg, j;
+	int l, l2, isodd, i, t, len_avg, j, k;
 	int is, os;
 	len_avg = M * lpd_len;
 	l2 = len_avg / 2;
 	isodd = N % 2;
 
 	for (i = 0; i < len_cA; ++i) {
-		t = i + l2;
+		t = (i + l2) % len_cA;
 		os = i *ostride;
 		cA[os] = 0.0;
 		cD[os] = 0.0;
 		l = -1;
 		for (j = 0; j < len_avg; j += M) {
 			l++;
-			while (j >= len_cA) {
-				j -= len_cA;
-			}
-			if ((t - j) >= l2 && (t - j) < N) {
-				is = (t - j)*istride;
+			k = j % len_cA;
+			if ((t - k) >= l2 && (t - k) < N) {
+				is = (t - k)*istride;
 				cA[os] += lpd[l] * inp[is];
 				cD[os] += hpd[l] * inp[is];
 			}
-			else if ((t - j) < l2 && (t - j) >= 0) {
-				is = (t - j)*istride;
+			else if ((t - k) < l2 && (t - k) >= 0) {
+				is = (t - k)*istride;
 				cA[os] += lpd[l] * inp[is];
 				cD[os] += hpd[l] * inp[is];
 			}
-			else if ((t - j) < 0) {
-				is = (t - j + N)*istride;
+			else if ((t - k) < 0) {
+				is = (t - k + N)*istride;
 				cA[os] += lpd[l] * inp[is];
 				cD[os] += hpd[l] * inp[is];
 			}
-			else if ((t - j) >= N && isodd == 0) {
-				is = (t - j - N)*istride;
+			else if ((t - k) >= N && isodd == 0) {
+				is = (t - k - N)*istride;
 				cA[os] += lpd[l] * inp[is];
 				cD[os] += hpd[l] * inp[is];
 			}
-			else if ((t - j) >= N && isodd == 1) {
+			else if ((t - k) >= N && isodd == 1) {
 				if (t - l != N) {
-					is = (t - j - (N + 1))*istride;
+					is = (t - k - (N + 1))*istride;
 					cA[os] += lpd[l] * inp[is];
 					cD[os] += hpd[l] * inp[is];
 				}
-- 
2.43.0


From cafbddbfb17c4d59a7410e68c7d22a31f1f4b25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:53 +0000
Subject: [PATCH 111/121] fix: dwt, wtree, dwpt, idwt, idwpt: the extension of
 a series shorter than the filter repeats (coefficients were read outside the
 series)

---
 src/wavelib.c | 122 +++++++++-----------------------------------------
 src/wtmath.c  | 113 ++++++++++++++++------------------------------
 src/wtmath.h  |   4 ++
 3 files changed, 62 insertions(+), 177 deletions(-)

diff --git a/src/wavelib.c b/src/wavelib.c
index 278acc0..a0e2f4d 100644
--- a/src/wavelib.c
+++ b/src/wavelib.c
@@ -299,53 +299,20 @@ static void dwt_per(wt_object wt, double *inp, int N, double *cA, int len_cA, do
 }
 
 static void wtree_per(wtree_object wt, double *inp, int N, double *cA, int len_cA, double *cD) {
-	int l, l2, isodd, i, t, len_avg;
+	int l, l2, i, t, len_avg, is;
 
 	len_avg = wt->wave->lpd_len;
 	l2 = len_avg / 2;
-	isodd = N % 2;
 
 	for (i = 0; i < len_cA; ++i) {
 		t = 2 * i + l2;
 		cA[i] = 0.0;
 		cD[i] = 0.0;
 		for (l = 0; l < len_avg; ++l) {
-			if ((t - l) >= l2 && (t - l) < N) {
-				cA[i] += wt->wave->lpd[l] * inp[t - l];
-				cD[i] += wt->wave->hpd[l] * inp[t - l];
-			}
-			else if ((t - l) < l2 && (t - l) >= 0) {
-				cA[i] += wt->wave->lpd[l] * inp[t - l];
-				cD[i] += wt->wave->hpd[l] * inp[t - l];
-			}
-			else if ((t - l) < 0 && isodd == 0) {
-				cA[i] += wt->wave->lpd[l] * inp[t - l + N];
-				cD[i] += wt->wave->hpd[l] * inp[t - l + N];
-			}
-			else if ((t - l) < 0 && isodd == 1) {
-				if ((t - l) != -1) {
-					cA[i] += wt->wave->lpd[l] * inp[t - l + N + 1];
-					cD[i] += wt->wave->hpd[l] * inp[t - l + N + 1];
-				}
-				else {
-					cA[i] += wt->wave->lpd[l] * inp[N - 1];
-					cD[i] += wt->wave->hpd[l] * inp[N - 1];
-				}
-			}
-			else if ((t - l) >= N && isodd == 0) {
-				cA[i] += wt->wave->lpd[l] * inp[t - l - N];
-				cD[i] += wt->wave->hpd[l] * inp[t - l - N];
-			}
-			else if ((t - l) >= N && isodd == 1) {
-				if (t - l != N) {
-					cA[i] += wt->wave->lpd[l] * inp[t - l - (N + 1)];
-					cD[i] += wt->wave->hpd[l] * inp[t - l - (N + 1)];
-				}
-				else {
-					cA[i] += wt->wave->lpd[l] * inp[N - 1];
-					cD[i] += wt->wave->hpd[l] * inp[N - 1];
-				}
-			}
+			is = per_index(t - l, N);
+			cA[i] += wt->wave->lpd[l] * inp[is];
+			cD[i] += wt->wave->hpd[l] * inp[is];
+
 
 		}
 	}
@@ -355,53 +322,20 @@ static void wtree_per(wtree_object wt, double *inp, int N, double *cA, int len_c
 }
 
 static void dwpt_per(wpt_object wt, double *inp, int N, double *cA, int len_cA, double *cD) {
-	int l, l2, isodd, i, t, len_avg;
+	int l, l2, i, t, len_avg, is;
 
 	len_avg = wt->wave->lpd_len;
 	l2 = len_avg / 2;
-	isodd = N % 2;
 
 	for (i = 0; i < len_cA; ++i) {
 		t = 2 * i + l2;
 		cA[i] = 0.0;
 		cD[i] = 0.0;
 		for (l = 0; l < len_avg; ++l) {
-			if ((t - l) >= l2 && (t - l) < N) {
-				cA[i] += wt->wave->lpd[l] * inp[t - l];
-				cD[i] += wt->wave->hpd[l] * inp[t - l];
-			}
-			else if ((t - l) < l2 && (t - l) >= 0) {
-				cA[i] += wt->wave->lpd[l] * inp[t - l];
-				cD[i] += wt->wave->hpd[l] * inp[t - l];
-			}
-			else if ((t - l) < 0 && isodd == 0) {
-				cA[i] += wt->wave->lpd[l] * inp[t - l + N];
-				cD[i] += wt->wave->hpd[l] * inp[t - l + N];
-			}
-			else if ((t - l) < 0 && isodd == 1) {
-				if ((t - l) != -1) {
-					cA[i] += wt->wave->lpd[l] * inp[t - l + N + 1];
-					cD[i] += wt->wave->hpd[l] * inp[t - l + N + 1];
-				}
-				else {
-					cA[i] += wt->wave->lpd[l] * inp[N - 1];
-					cD[i] += wt->wave->hpd[l] * inp[N - 1];
-				}
-			}
-			else if ((t - l) >= N && isodd == 0) {
-				cA[i] += wt->wave->lpd[l] * inp[t - l - N];
-				cD[i] += wt->wave->hpd[l] * inp[t - l - N];
-			}
-			else if ((t - l) >= N && isodd == 1) {
-				if (t - l != N) {
-					cA[i] += wt->wave->lpd[l] * inp[t - l - (N + 1)];
-					cD[i] += wt->wave->hpd[l] * inp[t - l - (N + 1)];
-				}
-				else {
-					cA[i] += wt->wave->lpd[l] * inp[N - 1];
-					cD[i] += wt->wave->hpd[l] * inp[N - 1];
-				}
-			}
+			is = per_index(t - l, N);
+			cA[i] += wt->wave->lpd[l] * inp[is];
+			cD[i] += wt->wave->hpd[l] * inp[is];
+
 
 		}
 	}
@@ -416,7 +350,7 @@ static void dwt_sym(wt_object wt, double *inp, int N, double *cA, int len_cA, do
 }
 
 static void wtree_sym(wtree_object wt, double *inp, int N, double *cA, int len_cA, double *cD) {
-	int i, l, t, len_avg;
+	int i, l, t, len_avg, is;
 
 	len_avg = wt->wave->lpd_len;
 
@@ -425,18 +359,10 @@ static void wtree_sym(wtree_object wt, double *inp, int N, double *cA, int len_c
 		cA[i] = 0.0;
 		cD[i] = 0.0;
 		for (l = 0; l < len_avg; ++l) {
-			if ((t - l) >= 0 && (t - l) < N) {
-				cA[i] += wt->wave->lpd[l] * inp[t - l];
-				cD[i] += wt->wave->hpd[l] * inp[t - l];
-			}
-			else if ((t - l) < 0) {
-				cA[i] += wt->wave->lpd[l] * inp[-t + l - 1];
-				cD[i] += wt->wave->hpd[l] * inp[-t + l - 1];
-			}
-			else if ((t - l) >= N) {
-				cA[i] += wt->wave->lpd[l] * inp[2 * N - t + l - 1];
-				cD[i] += wt->wave->hpd[l] * inp[2 * N - t + l - 1];
-			}
+			is = sym_index(t - l, N);
+			cA[i] += wt->wave->lpd[l] * inp[is];
+			cD[i] += wt->wave->hpd[l] * inp[is];
+
 
 		}
 	}
@@ -445,7 +371,7 @@ static void wtree_sym(wtree_object wt, double *inp, int N, double *cA, int len_c
 }
 
 static void dwpt_sym(wpt_object wt, double *inp, int N, double *cA, int len_cA, double *cD) {
-	int i, l, t, len_avg;
+	int i, l, t, len_avg, is;
 
 	len_avg = wt->wave->lpd_len;
 
@@ -454,18 +380,10 @@ static void dwpt_sym(wpt_object wt, double *inp, int N, double *cA, int len_cA,
 		cA[i] = 0.0;
 		cD[i] = 0.0;
 		for (l = 0; l < len_avg; ++l) {
-			if ((t - l) >= 0 && (t - l) < N) {
-				cA[i] += wt->wave->lpd[l] * inp[t - l];
-				cD[i] += wt->wave->hpd[l] * inp[t - l];
-			}
-			else if ((t - l) < 0) {
-				cA[i] += wt->wave->lpd[l] * inp[-t + l - 1];
-				cD[i] += wt->wave->hpd[l] * inp[-t + l - 1];
-			}
-			else if ((t - l) >= N) {
-				cA[i] += wt->wave->lpd[l] * inp[2 * N - t + l - 1];
-				cD[i] += wt->wave->hpd[l] * inp[2 * N - t + l - 1];
-			}
+			is = sym_index(t - l, N);
+			cA[i] += wt->wave->lpd[l] * inp[is];
+			cD[i] += wt->wave->hpd[l] * inp[is];
+
 
 		}
 	}
diff --git a/src/wtmath.c b/src/wtmath.c
index bf86dd6..b2df1be 100644
--- a/src/wtmath.c
+++ b/src/wtmath.c
@@ -4,12 +4,33 @@ Copyright (c) 2018, Rafat Hussain
 */
 #include "wtmath.h"
 
+int per_index(int k, int N) {
+	// Index of element k of the periodic extension. An odd length is made even by repeating the last value
+	int M;
+	M = N + N % 2;
+	k = k % M;
+	if (k < 0) {
+		k += M;
+	}
+	return k < N ? k : N - 1;
+}
+
+int sym_index(int k, int N) {
+	// Index of element k of the half-point symmetric extension
+	int M;
+	M = 2 * N;
+	k = k % M;
+	if (k < 0) {
+		k += M;
+	}
+	return k < N ? k : M - 1 - k;
+}
+
 void dwt_per_stride(double *inp, int N, double *lpd,double*hpd,int lpd_len,double *cA, int len_cA, double *cD, int istride, int ostride) {
-	int l, l2, isodd, i, t, len_avg,is,os;
+	int l, l2, i, t, len_avg,is,os;
 
 	len_avg = lpd_len;
 	l2 = len_avg / 2;
-	isodd = N % 2;
 
 	for (i = 0; i < len_cA; ++i) {
 		t = 2 * i + l2;
@@ -17,50 +38,10 @@ void dwt_per_stride(double *inp, int N, double *lpd,double*hpd,int lpd_len,doubl
 		cA[os] = 0.0;
 		cD[os] = 0.0;
 		for (l = 0; l < len_avg; ++l) {
-			if ((t - l) >= l2 && (t - l) < N) {
-				is = (t - l) * istride;
-				cA[os] += lpd[l] * inp[is];
-				cD[os] += hpd[l] * inp[is];
-			}
-			else if ((t - l) < l2 && (t - l) >= 0) {
-				is = (t - l) * istride;
-				cA[os] += lpd[l] * inp[is];
-				cD[os] += hpd[l] * inp[is];
-			}
-			else if ((t - l) < 0 && isodd == 0) {
-				is = (t - l + N) * istride;
-				cA[os] += lpd[l] * inp[is];
-				cD[os] += hpd[l] * inp[is];
-			}
-			else if ((t - l) < 0 && isodd == 1) {
-				if ((t - l) != -1) {
-					is = (t - l + N + 1) * istride;
-					cA[os] += lpd[l] * inp[is];
-					cD[os] += hpd[l] * inp[is];
-				}
-				else {
-					is = (N - 1) * istride;
-					cA[os] += lpd[l] * inp[is];
-					cD[os] += hpd[l] * inp[is];
-				}
-			}
-			else if ((t - l) >= N && isodd == 0) {
-				is = (t - l - N) * istride;
-				cA[os] += lpd[l] * inp[is];
-				cD[os] += hpd[l] * inp[is];
-			}
-			else if ((t - l) >= N && isodd == 1) {
-				is = (t - l - (N + 1)) * istride;
-				if (t - l != N) {
-					cA[os] += lpd[l] * inp[is];
-					cD[os] += hpd[l] * inp[is];
-				}
-				else {
-					is = (N - 1) * istride;
-					cA[os] += lpd[l] * inp[is];
-					cD[os] += hpd[l] * inp[is];
-				}
-			}
+			is = per_index(t - l, N) * istride;
+			cA[os] += lpd[l] * inp[is];
+			cD[os] += hpd[l] * inp[is];
+
 
 		}
 		
@@ -79,21 +60,10 @@ void dwt_sym_stride(double *inp, int N, double *lpd, double*hpd, int lpd_len, do
 		cA[os] = 0.0;
 		cD[os] = 0.0;
 		for (l = 0; l < len_avg; ++l) {
-			if ((t - l) >= 0 && (t - l) < N) {
-				is = (t - l) * istride;
-				cA[os] += lpd[l] * inp[is];
-				cD[os] += hpd[l] * inp[is];
-			}
-			else if ((t - l) < 0) {
-				is = (-t + l - 1) * istride;
-				cA[os] += lpd[l] * inp[is];
-				cD[os] += hpd[l] * inp[is];
-			}
-			else if ((t - l) >= N) {
-				is = (2 * N - t + l - 1) * istride;
-				cA[os] += lpd[l] * inp[is];
-				cD[os] += hpd[l] * inp[is];
-			}
+			is = sym_index(t - l, N) * istride;
+			cA[os] += lpd[l] * inp[is];
+			cD[os] += hpd[l] * inp[is];
+
 
 		}
 	}
@@ -203,21 +173,14 @@ void idwt_per_stride(double *cA, int len_cA, double *cD, double *lpr, double *hp
 		X[ns] = 0.0;
 		for (l = 0; l < l2; ++l) {
 			t = 2 * l;
-			if ((i - l) >= 0 && (i - l) < len_cA) {
-				is = (i - l) * istride;
-				X[ms] += lpr[t] * cA[is] + hpr[t] * cD[is];
-				X[ns] += lpr[t + 1] * cA[is] + hpr[t + 1] * cD[is];
-			}
-			else if ((i - l) >= len_cA && (i - l) < len_cA + len_avg - 1) {
-				is = (i - l - len_cA) * istride;
-				X[ms] += lpr[t] * cA[is] + hpr[t] * cD[is];
-				X[ns] += lpr[t + 1] * cA[is] + hpr[t + 1] * cD[is];
-			}
-			else if ((i - l) < 0 && (i - l) > -l2) {
-				is = (len_cA + i - l) * istride;
-				X[ms] += lpr[t] * cA[is] + hpr[t] * cD[is];
-				X[ns] += lpr[t + 1] * cA[is] + hpr[t + 1] * cD[is];
+			is = (i - l) % len_cA;
+			if (is < 0) {
+				is += len_cA;
 			}
+			is = is * istride;
+			X[ms] += lpr[t] * cA[is] + hpr[t] * cD[is];
+			X[ns] += lpr[t + 1] * cA[is] + hpr[t + 1] * cD[is];
+
 		}
 	}
 }
diff --git a/src/wtmath.h b/src/wtmath.h
index 4fddfe9..0813571 100644
--- a/src/wtmath.h
+++ b/src/wtmath.h
@@ -11,6 +11,10 @@ Copyright (c) 2014, Rafat Hussain
 extern "C" {
 #endif
 
+int per_index(int k, int N);
+
+int sym_index(int k, int N);
+
 void dwt_per_stride(double *inp, int N, double *lpd,double*hpd,int lpd_len,
 double *cA, int len_cA, double *cD, int istride, int ostride);
 
-- 
2.43.0


From bfb21ebdc3f5d902f32eb8a37bcc17d8dd393f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:00 +0000
Subject: [PATCH 112/121] fix: dwt, idwt, idwpt, getDWTmra: work arrays for
 symmetric extensions of a series shorter than the filter, whose coefficients
 outnumber it

---
 src/wavelib.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/wavelib.c b/src/wavelib.c
index a0e2f4d..741b2c0 100644
--- a/src/wavelib.c
+++ b/src/wavelib.c
@@ -476,8 +476,8 @@ void dwt(wt_object wt,const double *inp) {
 	wt->length[J + 1] = temp_len;
 	wt->outlength = 0;
 	wt->zpad = 0;
-	orig = (double*)malloc(sizeof(double)* temp_len);
-	orig2 = (double*)malloc(sizeof(double)* temp_len);
+	orig = (double*)malloc(sizeof(double)* (temp_len + wt->wave->filtlength));
+	orig2 = (double*)malloc(sizeof(double)* (temp_len + wt->wave->filtlength));
 	/*
 	if ((temp_len % 2) == 0) {
 	wt->zpad = 0;
@@ -588,7 +588,7 @@ static void getDWTRecCoeff(double *coeff, int *length, const char *ctype, const
 
 	int i, j, k, det_len, N, l, m, n, v, t, l2;
 	double *out, *X_lp, *filt;
-	out = (double*)malloc(sizeof(double)* (siglength + 1));
+	out = (double*)malloc(sizeof(double)* (siglength + lf + 1));
 	l2 = lf / 2;
 	m = -2;
 	n = -1;
@@ -1305,7 +1305,7 @@ void idwt(wt_object wt, double *dwtop) {
 	J = wt->J;
 	U = 2;
 	app_len = wt->length[0];
-	out = (double*)malloc(sizeof(double)* (wt->siglength + 1));
+	out = (double*)malloc(sizeof(double)* (wt->siglength + wt->wave->filtlength + 1));
 	if (!strcmp(wt->ext, "per") && (!strcmp(wt->cmethod, "fft") || !strcmp(wt->cmethod, "FFT"))) {
 		app_len = wt->length[0];
 		det_len = wt->length[1];
@@ -1402,9 +1402,9 @@ void idwt(wt_object wt, double *dwtop) {
 		lf = wt->wave->lpd_len;// lpd and hpd have the same length
 
 		N = 2 * wt->length[J] - 1;
-		cA_up = (double*)malloc(sizeof(double)* N);
-		X_lp = (double*)malloc(sizeof(double)* (N + lf - 1));
-		X_hp = (double*)malloc(sizeof(double)* (N + lf - 1));
+		cA_up = (double*)malloc(sizeof(double)* (N + 2 * lf));
+		X_lp = (double*)malloc(sizeof(double)* (N + 3 * lf));
+		X_hp = (double*)malloc(sizeof(double)* (N + 3 * lf));
 
 		for (i = 0; i < app_len; ++i) {
 			out[i] = wt->output[i];
@@ -1526,10 +1526,10 @@ void idwpt(wpt_object wt, double *dwtop) {
 	lf = (wt->wave->lpr_len + wt->wave->hpr_len) / 2;
 	xlen = p * (app_len + 2 * lf);
 
-	X_lp = (double*)malloc(sizeof(double)* 2 * (wt->length[J] + lf));
+	X_lp = (double*)malloc(sizeof(double)* 2 * (wt->length[J] + 2 * lf));
 	X = (double*)malloc(sizeof(double)* xlen);
-	out = (double*)malloc(sizeof(double)* wt->length[J]);
-	out2 = (double*)malloc(sizeof(double)* wt->length[J]);
+	out = (double*)malloc(sizeof(double)* (wt->length[J] + lf));
+	out2 = (double*)malloc(sizeof(double)* (wt->length[J] + lf));
 	prep = (int*)malloc(sizeof(int)* p);
 	ptemp = (int*)malloc(sizeof(int)* p);
 	n1 = 1;
-- 
2.43.0


From 0372758e68f81be08e4bfcff8fbf7a26005ac85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:39 +0000
Subject: [PATCH 113/121] fix: getDWTmra, idwpt: the periodic extension of
 coefficients fewer than half the filter repeats

---
 src/wavelib.c | 36 ++++++++++++------------------------
 1 file changed, 12 insertions(+), 24 deletions(-)

diff --git a/src/wavelib.c b/src/wavelib.c
index 741b2c0..b373d2e 100644
--- a/src/wavelib.c
+++ b/src/wavelib.c
@@ -586,7 +586,7 @@ void dwt(wt_object wt,const double *inp) {
 static void getDWTRecCoeff(double *coeff, int *length, const char *ctype, const char *ext, int level, int J, double *lpr,
 	double *hpr, int lf, int siglength, double *reccoeff) {
 
-	int i, j, k, det_len, N, l, m, n, v, t, l2;
+	int i, j, k, det_len, N, l, m, n, v, t, l2, is;
 	double *out, *X_lp, *filt;
 	out = (double*)malloc(sizeof(double)* (siglength + lf + 1));
 	l2 = lf / 2;
@@ -627,18 +627,12 @@ static void getDWTRecCoeff(double *coeff, int *length, const char *ctype, const
 				X_lp[n] = 0.0;
 				for (l = 0; l < l2; ++l) {
 					t = 2 * l;
-					if ((i - l) >= 0 && (i - l) < det_len) {
-						X_lp[m] += filt[t] * out[i - l];
-						X_lp[n] += filt[t + 1] * out[i - l];
-					}
-					else if ((i - l) >= det_len && (i - l) < det_len + lf - 1) {
-						X_lp[m] += filt[t] * out[i - l - det_len];
-						X_lp[n] += filt[t + 1] * out[i - l - det_len];
-					}
-					else if ((i - l) < 0 && (i - l) > -l2) {
-						X_lp[m] += filt[t] * out[det_len + i - l];
-						X_lp[n] += filt[t + 1] * out[det_len + i - l];
+					is = (i - l) % det_len;
+					if (is < 0) {
+						is += det_len;
 					}
+					X_lp[m] += filt[t] * out[is];
+					X_lp[n] += filt[t + 1] * out[is];
 				}
 			}
 
@@ -1461,7 +1455,7 @@ void idwt(wt_object wt, double *dwtop) {
 }
 
 static void idwpt_per(wpt_object wt, double *cA, int len_cA, double *cD, double *X) {
-	int len_avg, i, l, m, n, t, l2;
+	int len_avg, i, l, m, n, t, l2, is;
 
 	len_avg = (wt->wave->lpr_len + wt->wave->hpr_len) / 2;
 	l2 = len_avg / 2;
@@ -1475,18 +1469,12 @@ static void idwpt_per(wpt_object wt, double *cA, int len_cA, double *cD, double
 		X[n] = 0.0;
 		for (l = 0; l < l2; ++l) {
 			t = 2 * l;
-			if ((i - l) >= 0 && (i - l) < len_cA) {
-				X[m] += wt->wave->lpr[t] * cA[i - l] + wt->wave->hpr[t] * cD[i - l];
-				X[n] += wt->wave->lpr[t + 1] * cA[i - l] + wt->wave->hpr[t + 1] * cD[i - l];
-			}
-			else if ((i - l) >= len_cA && (i - l) < len_cA + len_avg - 1) {
-				X[m] += wt->wave->lpr[t] * cA[i - l - len_cA] + wt->wave->hpr[t] * cD[i - l - len_cA];
-				X[n] += wt->wave->lpr[t + 1] * cA[i - l - len_cA] + wt->wave->hpr[t + 1] * cD[i - l - len_cA];
-			}
-			else if ((i - l) < 0 && (i - l) > -l2) {
-				X[m] += wt->wave->lpr[t] * cA[len_cA + i - l] + wt->wave->hpr[t] * cD[len_cA + i - l];
-				X[n] += wt->wave->lpr[t + 1] * cA[len_cA + i - l] + wt->wave->hpr[t + 1] * cD[len_cA + i - l];
+			is = (i - l) % len_cA;
+			if (is < 0) {
+				is += len_cA;
 			}
+			X[m] += wt->wave->lpr[t] * cA[is] + wt->wave->hpr[t] * cD[is];
+			X[n] += wt->wave->lpr[t + 1] * cA[is] + wt->wave->hpr[t + 1] * cD[is];
 		}
 	}
 }
-- 
2.43.0


From a38953bd2ae9daa7df369558ac7e1f1a3fe4245f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:06 +0000
Subject: [PATCH 114/121] fix: pgamma and ibeta of NaN returned uninitialised
 values (p-values of undefined statistics)

---
 src/dist.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/dist.c b/src/dist.c
index 347d12c..38916a0 100644
--- a/src/dist.c
+++ b/src/dist.c
@@ -462,6 +462,10 @@ double beta_log(double a, double b) {
 double pgamma(double x, double a) {
 	double oup,ct,d,s,la;
 	double a0,a1,b0,b1,g,g0,delta,fact;
+
+	if (x != x || a != a) {
+		return x + a;
+	}
 	// Negative a
 	if (a < 0.) {
 		printf("a must be non-negative");
@@ -635,6 +639,11 @@ double ibeta_appx(double x, double a , double b) {
 double ibeta(double x, double a , double b) {
 	double oup,temp;
 	int ctrlint;
+
+	if (x != x || a != a || b != b) {
+		return x + a + b;
+	}
+
 	/*
 	 * This program uses two methods described in Abramowitz and Stegun
 	 * Handbook.
-- 
2.43.0


From 71ae40d8662b39bb767b2d1ca1a7a284b1b9d00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:29 +0000
Subject: [PATCH 115/121] fix: enorm of residuals that are not numbers returned
 an uninitialised value

---
 src/nls.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/nls.c b/src/nls.c
index 6278e22..f842ed2 100644
--- a/src/nls.c
+++ b/src/nls.c
@@ -60,8 +60,7 @@ double enorm(double *x, int N) {
     	if (s2 != zero) {
     		if (s2 >= x3max) {
     			enrm = sqrt(s2*(one+(x3max/s2)*(x3max*s3)));
-    		}
-    		if (s2 < x3max) {
+    		} else {
     			enrm = sqrt(x3max*((s2/x3max)+(x3max*s3)));
     		}
     	} else {
-- 
2.43.0


From 75176204dfc9344b246a21cdebfb7118f23d5e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:40 +0000
Subject: [PATCH 116/121] fix: supsmu read before its arrays for two or three
 points (auto_arima, nsdiffs and mstl of such series)

---
 src/talg.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/talg.c b/src/talg.c
index 452e832..edf19a1 100644
--- a/src/talg.c
+++ b/src/talg.c
@@ -1512,7 +1512,13 @@ static int supsmu_(int *n, double *x, double *y, double *w, int *iper, double *s
     return 0;
 L30:
     i__ = *n / 4;
+    if (i__ < 1) {
+	i__ = 1;
+    }
     j = i__ * 3;
+    if (j > *n) {
+	j = *n;
+    }
     scale = x[j] - x[i__];
 L40:
     if (scale > 0.f) {
-- 
2.43.0


From aeed18d19ad34d2c6a40fd5fb58d8d088e702418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:49 +0000
Subject: [PATCH 117/121] fix: svd: a matrix of low rank with a dozen columns
 or more gave singular vectors that are not numbers (reciprocals of subnormal
 norms)

---
 src/matrix.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/matrix.c b/src/matrix.c
index ac7238a..1271aa0 100644
--- a/src/matrix.c
+++ b/src/matrix.c
@@ -1,6 +1,7 @@
 // SPDX-License-Identifier: BSD-3-Clause
 
 #include "matrix.h"
+#include <float.h>
 
 typedef struct {
 	double* a;
@@ -2614,6 +2615,14 @@ int svd(double *A,int M,int N,double *U,double *V,double *q) {
 				scale += fabs(U[k*N+i]);
 			}
 
+			if (scale <= M * DBL_MIN) {
+				// reciprocals of subnormal numbers overflow
+				for(k = i; k < M;++k) {
+					U[k*N+i] = 0.0;
+				}
+				scale = 0.0;
+			}
+
 			if (scale != 0.0) {
 				for(k = i; k < M;++k) {
 					t = k * N;
@@ -2656,6 +2665,12 @@ int svd(double *A,int M,int N,double *U,double *V,double *q) {
         	for(k = l; k < N;++k) {
         		scale += fabs(U[t+k]);
         	}
+        	if (scale <= N * DBL_MIN) {
+        		for(k = l; k < N;++k) {
+        			U[t+k] = 0.0;
+        		}
+        		scale = 0.0;
+        	}
         	if (scale != 0.0) {
         		for(k = l; k < N;++k) {
         			U[t+k] /= scale;
-- 
2.43.0


From 875385ae6439c66a23f21dd6e2573e8285284297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:18 +0000
Subject: [PATCH 118/121] fix: svd_gr: a matrix of low rank with many columns
 gave singular vectors that are not numbers (reciprocals of subnormal norms)

---
 src/lls.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/lls.c b/src/lls.c
index 492cc9d..ce23370 100644
--- a/src/lls.c
+++ b/src/lls.c
@@ -519,6 +519,14 @@ int svd_gr(double *A,int M,int N,double *U,double *V,double *q) {
 				scale += fabs(U[k*N+i]);
 			}
 
+			if (scale <= M * DBL_MIN) {
+				// reciprocals of subnormal numbers overflow
+				for(k = i; k < M;++k) {
+					U[k*N+i] = 0.0;
+				}
+				scale = 0.0;
+			}
+
 			if (scale != 0.0) {
 				for(k = i; k < M;++k) {
 					t = k * N;
@@ -561,6 +569,12 @@ int svd_gr(double *A,int M,int N,double *U,double *V,double *q) {
         	for(k = l; k < N;++k) {
         		scale += fabs(U[t+k]);
         	}
+        	if (scale <= N * DBL_MIN) {
+        		for(k = l; k < N;++k) {
+        			U[t+k] = 0.0;
+        		}
+        		scale = 0.0;
+        	}
         	if (scale != 0.0) {
         		for(k = l; k < N;++k) {
         			U[t+k] /= scale;
-- 
2.43.0


From 04194cd5d9a9141ef5720a33ca7bf4cef39a83f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:34 +0000
Subject: [PATCH 119/121] fix: polynomial roots: the radius of the shifts is
 found from above, high degrees no longer fail

---
 src/polyroot.c | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/polyroot.c b/src/polyroot.c
index ad89667..3137475 100644
--- a/src/polyroot.c
+++ b/src/polyroot.c
@@ -132,19 +132,21 @@ static double CAUCHY(int NN, double *PT, double *Q) {
 		}
 	}
 
-	XM = 0.1 * X;
-    F = PT[0];
-    int max_iterations = 1000; // Maximum number of iterations to prevent infinite loop
-    int iterations = 0; // Initialize the iteration counter
-    while (F > 0.0 && iterations < max_iterations) {
-        F = PT[0];
-        for (i = 1; i < NN; ++i) {
-            F = F*XM + PT[i];
-        }
-        X = XM;
-        XM *= 0.1; // Reduce XM for the next iteration
-        iterations++; // Increment the iteration counter
-    }
+	// C CHOP THE INTERVAL (0,X) UNTIL F LE 0
+	int max_iterations = 1000; // Maximum number of iterations to prevent infinite loop
+	int iterations = 0; // Initialize the iteration counter
+	while (iterations < max_iterations) {
+		XM = 0.1 * X;
+		F = PT[0];
+		for (i = 1; i < NN; ++i) {
+			F = F*XM + PT[i];
+		}
+		if (F <= 0.0) {
+			break;
+		}
+		X = XM;
+		iterations++; // Increment the iteration counter
+	}
 
 	DX = X;
 	iterations = 0; // Initialize the iteration counter
-- 
2.43.0


From 682c9be15d33eb4b3fb8b0b1ac2f56708db7262c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:36 +0000
Subject: [PATCH 120/121] fix: polynomial roots: work arrays follow the degree
 instead of holding 100 entries

---
 src/polyroot.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/polyroot.c b/src/polyroot.c
index 3137475..c01280a 100644
--- a/src/polyroot.c
+++ b/src/polyroot.c
@@ -483,16 +483,16 @@ int cpoly(double *OPR, double *OPI, int DEGREE, double *ZEROR, double *ZEROI) {
 	int NN,CNT1,CNT2,IDNN2,i;
 	double prt, pit;
 
-	PR = (double*)malloc(sizeof(double)* 100);
-	PI = (double*)malloc(sizeof(double)* 100);
-	HR = (double*)malloc(sizeof(double)* 100);
-	HI = (double*)malloc(sizeof(double)* 100);
-	QPR = (double*)malloc(sizeof(double)* 100);
-	QPI = (double*)malloc(sizeof(double)* 100);
-	QHR = (double*)malloc(sizeof(double)* 100);
-	QHI = (double*)malloc(sizeof(double)* 100);
-	SHR = (double*)malloc(sizeof(double)* 100);
-	SHI = (double*)malloc(sizeof(double)* 100);
+	PR = (double*)malloc(sizeof(double)* (DEGREE + 1));
+	PI = (double*)malloc(sizeof(double)* (DEGREE + 1));
+	HR = (double*)malloc(sizeof(double)* (DEGREE + 1));
+	HI = (double*)malloc(sizeof(double)* (DEGREE + 1));
+	QPR = (double*)malloc(sizeof(double)* (DEGREE + 1));
+	QPI = (double*)malloc(sizeof(double)* (DEGREE + 1));
+	QHR = (double*)malloc(sizeof(double)* (DEGREE + 1));
+	QHI = (double*)malloc(sizeof(double)* (DEGREE + 1));
+	SHR = (double*)malloc(sizeof(double)* (DEGREE + 1));
+	SHI = (double*)malloc(sizeof(double)* (DEGREE + 1));
 
 	mcon(&ETA, &INFIN, &SMALNO, &BASE);
 
-- 
2.43.0


From 91fd5d4316615bcc7414ddfd451424dcff0ced96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:39 +0000
Subject: [PATCH 121/121] fix: eig: negligible subdiagonals are dropped before
 the first step, no NaN from subnormal ones

---
 src/matrix.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/matrix.c b/src/matrix.c
index 1271aa0..66ddfef 100644
--- a/src/matrix.c
+++ b/src/matrix.c
@@ -2112,6 +2112,12 @@ int francis_iter(double *A, int N, double *H) {
 	for(i = 0; i < N*N;++i) {
 		hnorm += fabs(H[i]);
 	}
+
+	for(i = 0; i < N-1;++i) {
+		if (fabs(H[(i+1)*N+i]) <= DBL_EPSILON * hnorm) {
+			H[(i+1)*N+i] = 0.;
+		}
+	}
 	
 	while (p > 1 && it < brkpoint) {
 		
-- 
2.43.0

