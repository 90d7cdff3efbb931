From cfe2b3220113b8d897b7ebba5bc3011be8d0aaea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:34 +0000
Subject: [PATCH 01/27] fix: diff_1d_samesize read and wrote outside its arrays

The last difference read one element past the input, and an empty input (the
valid range of an all-NaN cast) wrote before the output, crashing the process.
---
 neutralocean/ppinterp/lib.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neutralocean/ppinterp/lib.py b/neutralocean/ppinterp/lib.py
index 5e57af9..7c8bf5a 100644
--- a/neutralocean/ppinterp/lib.py
+++ b/neutralocean/ppinterp/lib.py
@@ -11,9 +11,9 @@ def diff_1d_samesize(x):
     """
 
     d = np.empty(x.size, dtype=x.dtype)
-    for i in range(d.size):
+    for i in range(d.size - 1):
         d[i] = x[i + 1] - x[i]
-    d[-1] = np.nan
+    d[-1:] = np.nan  # slice, to do nothing when x is empty
     return d
 
 
-- 
2.43.0


From cfb2874ee891e1310737633bdc5a1c0470d58b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:34 +0000
Subject: [PATCH 02/27] fix: veronis failed with numpy releases that removed
 np.trapz

---
 neutralocean/label.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/neutralocean/label.py b/neutralocean/label.py
index ce2b67b..9b64d5d 100644
--- a/neutralocean/label.py
+++ b/neutralocean/label.py
@@ -263,7 +263,9 @@ def _int_x_k(p, k, dp, P, Sppc, Tppc, eos_s_t):
 
     rs_, rt_ = eos_s_t(s_, t_, p_)
     y_ = rs_ * dsdp_ + rt_ * dtdp_
-    return np.trapz(y_, x=p_)
+
+    # Trapezoidal integration (np.trapz is not available in numpy >= 2.4)
+    return np.sum(0.5 * (y_[1:] + y_[:-1]) * (p_[1:] - p_[:-1]))
 
 
 # TODO
-- 
2.43.0


From 3514549fab36d774969eed9062313a9d4c397114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:34 +0000
Subject: [PATCH 03/27] fix: guess_to_bounds never returned when the guess or a
 bound was NaN

---
 neutralocean/fzero.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/neutralocean/fzero.py b/neutralocean/fzero.py
index 3f3b6a2..40d3254 100644
--- a/neutralocean/fzero.py
+++ b/neutralocean/fzero.py
@@ -178,6 +178,10 @@ def guess_to_bounds(f, x, A, B, args=()):
         Lower and upper bounds within which `f(x)` changes sign.
     """
 
+    # Protection against bad input, which would lead to an infinite loop below.
+    if np.isnan(x) or np.isnan(A) or np.isnan(B):
+        return (np.nan, np.nan)
+
     # Check value of f at bounds
     if f(A, *args) == 0.0:
         return (A, A)
-- 
2.43.0


From 59b8c820e786a59af46d7192f89d3d0e739aef7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:34 +0000
Subject: [PATCH 04/27] fix: neutral_trajectory read outside its arrays when
 the first cast is land

---
 neutralocean/traj.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/neutralocean/traj.py b/neutralocean/traj.py
index 49c5c1d..cd3e408 100644
--- a/neutralocean/traj.py
+++ b/neutralocean/traj.py
@@ -277,10 +277,11 @@ def neutral_trajectory(
 
         if c == 0:
             # Evaluate S and T on first cast at p0
-            Sppc = ppc_fn(Pc[k:K], Sc[k:K])
-            Tppc = ppc_fn(Pc[k:K], Tc[k:K])
-            s[0], t[0] = ppval_1_nonan_two(p0, Pc[k:K], Sppc, Tppc)
             p[0] = p0
+            if K - k > 1:  # else, land or only one bottle. Can't interpolate.
+                Sppc = ppc_fn(Pc[k:K], Sc[k:K])
+                Tppc = ppc_fn(Pc[k:K], Tc[k:K])
+                s[0], t[0] = ppval_1_nonan_two(p0, Pc[k:K], Sppc, Tppc)
         else:
             # Make a neutral connection from previous bottle to the cast (S[c,:], T[c,:], P[c,:])
             s[c], t[c], p[c] = _ntp_bottle_to_cast(
-- 
2.43.0


From f1732c80a0f475907026d77a768e812d4d42b461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:00 +0000
Subject: [PATCH 05/27] fix: potential_surf, anomaly_surf applied pin_p when
 ref and isoval were given

---
 neutralocean/surface/isopycnal.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neutralocean/surface/isopycnal.py b/neutralocean/surface/isopycnal.py
index 09ef93b..a19ba0d 100644
--- a/neutralocean/surface/isopycnal.py
+++ b/neutralocean/surface/isopycnal.py
@@ -369,6 +369,7 @@ def _isopycnal(ans_type, S, T, P, **kwargs):
     # Error checking on (ref, isoval, pin_cast, pin_p), then convert this
     # selection to (ref, isoval) pair
     _check_ref(ans_type, ref, isoval, pin_cast, pin_p, S)
+    pinned = isoval is None  # else, pin_cast and pin_p are not used
     ref, isoval = _choose_ref_isoval(
         ans_type, ref, isoval, pin_cast, pin_p, eos, S, T, P, ppc_fn
     )
@@ -378,7 +379,7 @@ def _isopycnal(ans_type, S, T, P, **kwargs):
     timer = time()
     s, t, p = vertsolve(S, T, P, ref, isoval, TOL_P_SOLVER)
 
-    if pin_p is not None:  # pin_cast must also be valid
+    if pinned:  # pin_cast and pin_p must be valid
         # Adjust the surface at the pinning cast slightly, to match the pinning
         # pressure / depth.  This fixes small deviations of order `TOL_P_SOLVER`
         n = pin_cast
-- 
2.43.0


From 89b71d7fd254a3f4f1653d67796b3a0fd1dafe10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:00 +0000
Subject: [PATCH 06/27] fix: isopycnal surfaces had p without s, t when pin_p
 is outside the pinning cast

---
 neutralocean/surface/isopycnal.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/neutralocean/surface/isopycnal.py b/neutralocean/surface/isopycnal.py
index a19ba0d..328a8e7 100644
--- a/neutralocean/surface/isopycnal.py
+++ b/neutralocean/surface/isopycnal.py
@@ -389,6 +389,8 @@ def _isopycnal(ans_type, S, T, P, **kwargs):
         Sppcn = ppc_fn(Pn[k:K], Sn[k:K])
         Tppcn = ppc_fn(Pn[k:K], Tn[k:K])
         s[n], t[n] = ppval_1_two(pin_p, Pn[k:K], Sppcn, Tppcn)
+        if np.isnan(s[n]):  # pin_p is not within this cast.
+            p[n] = np.nan  # Ensure s,t,p all have the same nan structure
 
     d = dict()
     d["ref"] = ref
-- 
2.43.0


From f91554be61a8e744f96e3f32f3bb491670d0cfcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:00 +0000
Subject: [PATCH 07/27] fix: a dict pin_cast selected the wrong cast unless
 ordered as S.dims

---
 neutralocean/lib.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/neutralocean/lib.py b/neutralocean/lib.py
index 4ab301e..fb3abef 100644
--- a/neutralocean/lib.py
+++ b/neutralocean/lib.py
@@ -357,7 +357,12 @@ def _process_pin_cast(pin_cast, S):
     # One issue is this always rounds one way, whereas a "nearest" neighbour
     # type behaviour would be preferred, as in xr.DataArray.sel
     if isinstance(pin_cast, dict):
-        return tuple(int(S.get_index(k).searchsorted(v)) for (k, v) in pin_cast.items())
+        # Use the order of the dimensions of S, not the order of the dict
+        return tuple(
+            int(S.get_index(k).searchsorted(pin_cast[k]))
+            for k in S.dims
+            if k in pin_cast
+        )
     elif isinstance(pin_cast, int):
         return (pin_cast,)
     else:
-- 
2.43.0


From 82c8cbb47ac3fcfe785b8df9bd150d9eb69deb94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:00 +0000
Subject: [PATCH 08/27] fix: pin_cast given as a list failed for isopycnal
 surfaces

---
 neutralocean/lib.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/neutralocean/lib.py b/neutralocean/lib.py
index fb3abef..28b889b 100644
--- a/neutralocean/lib.py
+++ b/neutralocean/lib.py
@@ -351,6 +351,8 @@ def _process_pin_cast(pin_cast, S):
         suitable for `S[pin_cast]` where S is an ndarray.
     If pinning cast is an int:
         wrap it into a 1-element tuple, so np.ravel_multi_index works
+    If pinning cast is a list:
+        convert to a tuple, so it indexes one cast
     Otherwise, just return the input `pin_cast`.
     """
     # TODO: There must be a better way of doing this...
@@ -365,6 +367,8 @@ def _process_pin_cast(pin_cast, S):
         )
     elif isinstance(pin_cast, int):
         return (pin_cast,)
+    elif isinstance(pin_cast, list):
+        return tuple(pin_cast)
     else:
         return pin_cast
 
-- 
2.43.0


From 821fe24249e56b66e5fec9b0c5e77fc84b973eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:00 +0000
Subject: [PATCH 09/27] fix: val_at dropped singleton horizontal dimensions

---
 neutralocean/lib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neutralocean/lib.py b/neutralocean/lib.py
index 28b889b..e9d1471 100644
--- a/neutralocean/lib.py
+++ b/neutralocean/lib.py
@@ -189,7 +189,7 @@ def val_at(T, k):
         Tk = T[..., k]
     elif T.ndim == k.ndim + 1:
         # if k[i,j] == 0, this will index T[i,j,-1] which will be nan, so T_bot[i,j] == nan.
-        Tk = np.take_along_axis(T, k[..., None], -1).squeeze()
+        Tk = np.take_along_axis(T, k[..., None], -1)[..., 0]
     else:
         raise ValueError("T must be 1 dimensional or have 1 more dimension than k")
 
-- 
2.43.0


From 3dd841c6f84633ae066361bf842641fdce7144f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:00 +0000
Subject: [PATCH 10/27] fix: xarray inputs needed a coordinate on the vertical
 dimension

---
 neutralocean/lib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neutralocean/lib.py b/neutralocean/lib.py
index e9d1471..39f2c82 100644
--- a/neutralocean/lib.py
+++ b/neutralocean/lib.py
@@ -213,7 +213,7 @@ def _xr_in(S, vert_dim):
             return xr.full_like(S, 0)
         elif isinstance(vert_dim, int):
             vert_dim = S.dims[vert_dim]  # convert to str
-        return xr.full_like(S.isel({vert_dim: 0}).drop_vars(vert_dim), 0)
+        return xr.full_like(S.isel({vert_dim: 0}).drop_vars(vert_dim, errors="ignore"), 0)
     else:
         return None
 
-- 
2.43.0


From 5d8f3b7c0643b53687cb1eaa95d9b9dc58b7db6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:17 +0000
Subject: [PATCH 11/27] fix: omega_surf and ntp_epsilon_errors_norms rejected
 documented forms of grid

grid['dist'] and grid['distperp'] are documented as optional, and grid['edges'],
grid['dist'], grid['distperp'] as possibly lists or tuples.
---
 neutralocean/ntp.py           | 11 ++++++-----
 neutralocean/surface/omega.py |  4 ++--
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/neutralocean/ntp.py b/neutralocean/ntp.py
index a6b9869..b43c777 100644
--- a/neutralocean/ntp.py
+++ b/neutralocean/ntp.py
@@ -42,7 +42,8 @@ def ntp_epsilon_errors(s, t, p, grid, eos_s_t="gsw", grav=None, rho_c=None):
     eos_s_t = make_eos_s_t(eos_s_t, grav, rho_c)
 
     s, t, p = (np.reshape(xr_to_np(x), -1) for x in (s, t, p))
-    e = _ntp_epsilon_error1(s, t, p, edges[0], edges[1], eos_s_t)
+    a, b = (np.asarray(x) for x in edges)
+    e = _ntp_epsilon_error1(s, t, p, a, b, eos_s_t)
 
     if dist is not float or dist != 1.0:
         e = e / dist
@@ -108,8 +109,8 @@ def ntp_epsilon_errors_norms(
     # The actual distances will be handled in computing the norms
     e = ntp_epsilon_errors(s, t, p, {"edges": grid["edges"]}, eos_s_t)
 
-    area = grid["dist"] * grid["distperp"]  # Area [m^2] centred on edges
-
+    dist, distperp = (np.asarray(grid.get(x, 1.0)) for x in ("dist", "distperp"))
+    area = dist * distperp  # Area [m^2] centred on edges
 
     # L2 norm of vector [a_i], weighted by vector [w_i], is sqrt( sum( w_i * a_i^2 ) / sum( w_i ) )
     # L1 norm of vector [a_i], weighted by vector [w_i], is sum( w_i * |a_i| ) / sum( w_i )
@@ -124,8 +125,8 @@ def ntp_epsilon_errors_norms(
     #     area / dist^2 = distperp / dist,
     # and the numerator of L1 norm needs to multiply epsilon by
     #     area ./ dist = distperp.
-    e_RMS = np.sqrt(np.nansum(grid["distperp"] / grid["dist"] * e**2) / denom)
-    e_MAV = np.nansum(grid["distperp"] * abs(e)) / denom
+    e_RMS = np.sqrt(np.nansum(distperp / dist * e**2) / denom)
+    e_MAV = np.nansum(distperp * abs(e)) / denom
 
     return e_RMS, e_MAV
 
diff --git a/neutralocean/surface/omega.py b/neutralocean/surface/omega.py
index 473296b..51b987d 100644
--- a/neutralocean/surface/omega.py
+++ b/neutralocean/surface/omega.py
@@ -241,7 +241,7 @@ def omega_surf(S, T, P, grid, pin_cast, p_init, **kw):
         pin_c = np.ravel_multi_index(pin_c, surf_shape)
 
     # Prepare grid ratios for matrix problem.
-    distratio = grid["distperp"] / grid["dist"]
+    distratio = np.divide(grid.get("distperp", 1.0), grid.get("dist", 1.0))
 
     # Pre-compute mixed layer
     if isinstance(p_ml, dict):
@@ -255,7 +255,7 @@ def omega_surf(S, T, P, grid, pin_cast, p_init, **kw):
     p_ml = np.reshape(p_ml, -1)
 
     # Pre-calculate grid adjacency needed for Breadth First Search
-    edges = grid["edges"]
+    edges = tuple(np.asarray(x) for x in grid["edges"])
     indptr, indices = edges_to_csr(edges, N)
     bfsargs = (
         indptr,
-- 
2.43.0


From 8d46993f94a6293e6aa487c5acaf26bd4c77b34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:17 +0000
Subject: [PATCH 12/27] fix: omega_surf dropped the diagnostics of its last
 iteration

---
 neutralocean/surface/omega.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neutralocean/surface/omega.py b/neutralocean/surface/omega.py
index 51b987d..70900c6 100644
--- a/neutralocean/surface/omega.py
+++ b/neutralocean/surface/omega.py
@@ -463,7 +463,7 @@ def omega_surf(S, T, P, grid, pin_cast, p_init, **kw):
     if diags:
         # Trim diagnostics
         for k, v in d.items():
-            d[k] = v[0 : iter_ + (k in ("e_MAV", "e_RMS"))]
+            d[k] = v[0 : iter_ + 1]
 
     # Reshape (from 1D arrays) and put into DataArrays if appropriate
     s, t, p = (
-- 
2.43.0


From b2026fb457b7829d7699383e3d24a167f7baea5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:17 +0000
Subject: [PATCH 13/27] fix: tripolar build_grid rejected padded arrays of
 shape (nj+1, ni+2)

---
 neutralocean/grid/tripolar.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/neutralocean/grid/tripolar.py b/neutralocean/grid/tripolar.py
index 0f5978b..388d347 100644
--- a/neutralocean/grid/tripolar.py
+++ b/neutralocean/grid/tripolar.py
@@ -144,13 +144,13 @@ def _build_edgedata(dims, data):
     """
 
     nj, ni = dims
-    v, u = data
-    v = np.broadcast_to(v, dims)
-    u = np.broadcast_to(u, dims)
+    v, u = (np.asarray(x) for x in data)
     if v.shape == (nj + 1, ni + 2):
         v = v[:-1, 1:-1]
     if u.shape == (nj + 1, ni + 2):
         u = u[:-1, 1:-1]
+    v = np.broadcast_to(v, dims)
+    u = np.broadcast_to(u, dims)
 
     return np.concatenate((v.reshape(-1), u.reshape(-1)))
 
-- 
2.43.0


From bc214040b6a40eb106d3d307a40b2d26c05399ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:17 +0000
Subject: [PATCH 14/27] fix: graph build_grid failed on a dict of sparse
 matrices

---
 neutralocean/grid/graph.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/neutralocean/grid/graph.py b/neutralocean/grid/graph.py
index bbf5456..97ea2f0 100644
--- a/neutralocean/grid/graph.py
+++ b/neutralocean/grid/graph.py
@@ -261,7 +261,11 @@ def sym_structure(A):
 
 def triu_if_sym(A):
     """Return upper triangle matrix if symmetric"""
-    if issymmetric(A):
+    if issparse(A):
+        sym = A.shape[0] == A.shape[1] and (A != A.T).nnz == 0
+    else:
+        sym = issymmetric(A)
+    if sym:
         return triu(A)
     else:
         return A
-- 
2.43.0


From b70eb885eb8d633fe994318feb2de48223df8875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:17 +0000
Subject: [PATCH 15/27] fix: wetting the perimeter compared with the mixed
 layer of the wrong cast

---
 neutralocean/bfs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neutralocean/bfs.py b/neutralocean/bfs.py
index 728f9e1..f221f7e 100644
--- a/neutralocean/bfs.py
+++ b/neutralocean/bfs.py
@@ -336,9 +336,9 @@ def bfs_conncomp1_wet_perim(
                             tol_p, s[n], t[n], p[n], Pm, Sppc, Tppc, eos
                         )
 
-                        if np.isfinite(p_) and p_ > p_ml[n]:
+                        if np.isfinite(p_) and p_ > p_ml[m]:
                             # The NTP connection was successful, and its location
-                            # on the neighbouring cast is below the mixed layer.
+                            # on this dry cast is below the mixed layer.
                             p0 += p_
                             denom += 1
 
-- 
2.43.0


From 7fb15947b5f9586c04abb174af2624403dae2d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:03 +0000
Subject: [PATCH 16/27] fix: wetting the perimeter missed casts and depended on
 the order of neighbours

Casts whose first neutral tangent plane link failed, and casts removed because
they were disconnected from the root, were never tried (again) when a further
neighbour became wet, so wetting stopped while further links were possible.
Also, links from casts that became wet in the same pass made the result depend
on the order of nodes, contrary to the documentation.
---
 neutralocean/bfs.py | 55 +++++++++++++++++++++------------------------
 1 file changed, 26 insertions(+), 29 deletions(-)

diff --git a/neutralocean/bfs.py b/neutralocean/bfs.py
index f221f7e..3aaea6b 100644
--- a/neutralocean/bfs.py
+++ b/neutralocean/bfs.py
@@ -262,13 +262,10 @@ def bfs_conncomp1_wet_perim(
     """
 
     good = np.isfinite(p)  # Good nodes
-    wet_adj = good.copy()  # True at n if n is wet or neighbour of a wet cast
     N = len(good)  # number of nodes in entire grid
     qu = np.empty(N, dtype=np.int_)
     qt = -1  # Queue Tail
     qh = -1  # Queue Head
-    qH = N - 1  # Queue head for perimeter nodes
-    qT = N - 1  # Queue Tail for perimeter nodes
     newly_wet = 0
 
     if good[root]:
@@ -290,31 +287,37 @@ def bfs_conncomp1_wet_perim(
                 qt += 1  # Add n to queue for BFS from root
                 qu[qt] = n
                 good[n] = False  # mark n as discovered
-            elif not wet_adj[n]:
-                # n is not good and undiscovered
-                qu[qT] = n  # Add n to list of perimeter nodes
-                qT -= 1
-                wet_adj[n] = True
 
     # Set p to nan everywhere beyond the connected component containing root.
+    # Henceforth, good[m] is True when m was wet before the current pass.
     good[:] = False
     for i in range(qt + 1):
         good[qu[i]] = True
     p[~good] = np.nan
 
-    # Henceforth, we can use good to record ocean vs land. good[m] is True when
-    # m is an ocean cast with two or more grid points, False otherwise.
-    # However, there's no discernable speedup of doing so.
-    # good[:] = True  # assume everything ocean to start
-
+    perim = np.empty(N, dtype=np.int_)  # dry casts to try in the current pass
+    in_perim = np.zeros(N, dtype=np.bool_)  # True at n if n is in perim
+    nqu = qt + 1  # qu[0:nqu] are the casts that became wet most recently
     rep = 0
-    while qH > qT and rep < n_rep:
+    while nqu > 0 and rep < n_rep:
         rep += 1
 
+        # Build list of dry casts that are adjacent to a recently wet cast. This
+        # includes casts for which previous NTP links failed.
+        nperim = 0
+        for i in range(nqu):
+            m = qu[i]
+            for n in indices[indptr[m] : indptr[m + 1]]:
+                if not good[n] and not in_perim[n]:
+                    perim[nperim] = n
+                    nperim += 1
+                    in_perim[n] = True
+
         # Loop over perimeter casts
-        for i in range(qH, qT, -1):
-            m = qu[i]  # dry cast
-            # if good[m]:  # ocean with at least 2 grid points
+        nqu = 0
+        for i in range(nperim):
+            m = perim[i]  # dry cast
+            in_perim[m] = False
 
             # assume S and T have same nan-structure
             k, K = valid_range_1_two(S[m], P[m])
@@ -330,7 +333,7 @@ def bfs_conncomp1_wet_perim(
                 p0 = 0.0  # for accumulating pressures
                 denom = 0  # number of successful NTP links to this cast
                 for n in neigh:
-                    if np.isfinite(p[n]):
+                    if good[n]:
                         # Try NTP link from bottle at n to cast at m
                         p_ = _ntp_bottle_to_cast_ppc(
                             tol_p, s[n], t[n], p[n], Pm, Sppc, Tppc, eos
@@ -351,17 +354,11 @@ def bfs_conncomp1_wet_perim(
                     # Interpolate S and T to averaged pressure
                     s[m], t[m] = ppval_1_two(p[m], Pm, Sppc, Tppc, 0)
 
-                    # Cast m has been wet, so add its neighbours that are
-                    # not (wet or adjacent to the wet region) to the queue.
-                    for n in neigh:
-                        if not wet_adj[n]:
-                            qu[qT] = n  # Add n to list of nodes on perimeter
-                            qT -= 1
-                            wet_adj[n] = True
-
-            # else:
-            #     good[m] = False  # don't try here again
+                    # Cast m has been wet.  Try its neighbours in the next pass.
+                    qu[nqu] = m
+                    nqu += 1
 
-        qH = i - 1  # Reset for next pass over perimeter
+        for i in range(nqu):
+            good[qu[i]] = True
 
     return newly_wet
-- 
2.43.0


From dba0a820cef288cf112f004618304d1c8789ec05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:35 +0000
Subject: [PATCH 17/27] fix: xgcm grids failed with xgcm releases that changed
 the API of Grid

---
 neutralocean/grid/xgcm.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/neutralocean/grid/xgcm.py b/neutralocean/grid/xgcm.py
index 22143d9..414be7b 100644
--- a/neutralocean/grid/xgcm.py
+++ b/neutralocean/grid/xgcm.py
@@ -224,11 +224,12 @@ def _build_im1_jm1(n, face_connections, dims, xsh, ysh):
     coords = {"i": np.arange(n), "j": np.arange(n), tile: np.arange(nf)}
     grid = xgcm.Grid(
         xr.Dataset(None, coords),
-        periodic=False,
+        padding="fill",
+        autoparse_metadata=False,
         face_connections=face_connections,
         coords={
-            "X": {"center": "i", "left": "i", "right": "i"},
-            "Y": {"center": "j", "left": "j", "right": "j"},
+            "X": {"center": "i"},
+            "Y": {"center": "j"},
         },
     )
 
@@ -252,8 +253,8 @@ def _build_im1_jm1(n, face_connections, dims, xsh, ysh):
             idx,
             axis=[["X"]],
             signature="(ax1:center)->(ax1:center)",
-            boundary_width={"ax1": (1, 0)},
-            boundary="fill",
+            padding_width={"ax1": (1, 0)},
+            padding="fill",
             fill_value=-1,
         )
 
@@ -266,8 +267,8 @@ def _build_im1_jm1(n, face_connections, dims, xsh, ysh):
             idx,
             axis=[["X"]],
             signature="(ax1:center)->(ax1:center)",
-            boundary_width={"ax1": (0, 1)},
-            boundary="fill",
+            padding_width={"ax1": (0, 1)},
+            padding="fill",
             fill_value=-1,
         )
 
@@ -285,8 +286,8 @@ def _build_im1_jm1(n, face_connections, dims, xsh, ysh):
             idx,
             axis=[["Y"]],
             signature="(ax1:center)->(ax1:center)",
-            boundary_width={"ax1": (1, 0)},
-            boundary="fill",
+            padding_width={"ax1": (1, 0)},
+            padding="fill",
             fill_value=-1,
         )
 
@@ -304,8 +305,8 @@ def _build_im1_jm1(n, face_connections, dims, xsh, ysh):
             idx,
             axis=[["Y"]],
             signature="(ax1:center)->(ax1:center)",
-            boundary_width={"ax1": (0, 1)},
-            boundary="fill",
+            padding_width={"ax1": (0, 1)},
+            padding="fill",
             fill_value=-1,
         )
 
-- 
2.43.0


From 5e14311be8fcc9778e94a51f62f5f7b29f5e33d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:35 +0000
Subject: [PATCH 18/27] fix: xgcm build_grid gave edges in i the distances for
 j, and vice versa

---
 neutralocean/grid/xgcm.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/neutralocean/grid/xgcm.py b/neutralocean/grid/xgcm.py
index 414be7b..0cc38e0 100644
--- a/neutralocean/grid/xgcm.py
+++ b/neutralocean/grid/xgcm.py
@@ -122,9 +122,9 @@ def build_grid(
     grid = dict()
 
     # Build list of pairs of adjacent nodes.  The first N entries are [m,n]
-    # where m is the local node and n is its neighbour in the j dimension.
+    # where m is the local node and n is its neighbour in the i dimension.
     # The second N entries are [m,n] where m is the local node and n is its
-    # neighbour in the i dimension.
+    # neighbour in the j dimension.
     a = np.tile(np.arange(N), 2)
     b = np.empty(N * 2, dtype=int)  # prealloc space
     b[:N] = im1.values.reshape(-1)
@@ -133,14 +133,14 @@ def build_grid(
     # Build list of distances between adjacent nodes, in the same order as the
     # pairs of nodes built by edges.
     dist = np.empty(N * 2, dtype=float)
-    dist[:N] = dyC.reshape(-1)
-    dist[N:] = dxC.reshape(-1)
+    dist[:N] = dxC.reshape(-1)
+    dist[N:] = dyC.reshape(-1)
 
     # Build list of distances of the faces between adjacent nodes, in the same
     # order as the pairs of nodes built by edges.
     distperp = np.empty(N * 2, dtype=float)
-    distperp[:N] = dxG.reshape(-1)  # dxG lives at same place as dyC
-    distperp[N:] = dyG.reshape(-1)  # dyG lives at same place as dxC
+    distperp[:N] = dyG.reshape(-1)  # dyG lives at same place as dxC
+    distperp[N:] = dxG.reshape(-1)  # dxG lives at same place as dyC
 
     # Trim out invalid edges, i.e. those for which one of the two nodes was
     # filled by `apply_as_grid_ufunc` to have a value of -1.
-- 
2.43.0


From 18aa44b9d657cbed0c7492c5a4640a339bfec416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:35 +0000
Subject: [PATCH 19/27] fix: xgcm build_grid failed with scalar (including
 default) distances

---
 neutralocean/grid/xgcm.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/neutralocean/grid/xgcm.py b/neutralocean/grid/xgcm.py
index 0cc38e0..2cd05ba 100644
--- a/neutralocean/grid/xgcm.py
+++ b/neutralocean/grid/xgcm.py
@@ -119,6 +119,11 @@ def build_grid(
     im1, jm1 = _build_im1_jm1(n, face_connections, dims, xsh, ysh)
     N = im1.size
 
+    # Broadcast scalar distances
+    dxC, dyC, dyG, dxG = (
+        np.broadcast_to(x, im1.shape) for x in (dxC, dyC, dyG, dxG)
+    )
+
     grid = dict()
 
     # Build list of pairs of adjacent nodes.  The first N entries are [m,n]
-- 
2.43.0


From eaefe37bae6d27626cc39a7a355b60fbd23d87d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:35 +0000
Subject: [PATCH 20/27] fix: xgcm grids scrambled nodes unless dims ended in
 (j, i) and ysh was left

---
 neutralocean/grid/xgcm.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/neutralocean/grid/xgcm.py b/neutralocean/grid/xgcm.py
index 2cd05ba..61f3f8c 100644
--- a/neutralocean/grid/xgcm.py
+++ b/neutralocean/grid/xgcm.py
@@ -296,11 +296,6 @@ def _build_im1_jm1(n, face_connections, dims, xsh, ysh):
             fill_value=-1,
         )
 
-        # Must ensure same ordering of dimensions as idx.  Currently, this
-        # one gets its dimensions reordered by the grid ufunc, probably
-        # because it reorders things to act on the last dimension...?
-        jm1 = jm1.transpose(*idx.dims)
-
     else:  # right
         # jm1 = grid.axes["Y"]._neighbor_binary_func(
         #     idx, lambda a, b: b, to="right", boundary="fill", fill_value=-1
@@ -315,4 +310,9 @@ def _build_im1_jm1(n, face_connections, dims, xsh, ysh):
             fill_value=-1,
         )
 
+    # Must ensure same ordering of dimensions as idx.  The grid ufunc reorders
+    # dimensions to act on the last dimension.
+    im1 = im1.transpose(*idx.dims)
+    jm1 = jm1.transpose(*idx.dims)
+
     return im1, jm1
-- 
2.43.0


From ccd184e04cad3ae0b135a5ea61635102ded28569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:59 +0000
Subject: [PATCH 21/27] fix: stabilize_ST left its inputs unchanged when
 vert_dim was not last

---
 neutralocean/stability.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/neutralocean/stability.py b/neutralocean/stability.py
index 933306f..607d37f 100644
--- a/neutralocean/stability.py
+++ b/neutralocean/stability.py
@@ -1,7 +1,7 @@
 import numpy as np
 from scipy.optimize import minimize
 
-from neutralocean.lib import _process_casts
+from neutralocean.lib import _process_casts, _process_vert_dim, xr_to_np
 from neutralocean.ppinterp import valid_range_1
 
 
@@ -157,6 +157,10 @@ def stabilize_ST(S, T, P, eos, **kw):
     verbose = kw.pop("verbose", True)
     options = kw.pop("options", {"maxiter" : 1000})
 
+    # Views of the arrays to mutate, with the vertical dimension last
+    vert_dim = _process_vert_dim(vert_dim, S)
+    S_in, T_in = (np.moveaxis(xr_to_np(x), vert_dim, -1) for x in (S, T))
+
     S, T, P = _process_casts(S, T, P, vert_dim)
 
     hshape = S.shape[0:-1]
@@ -225,6 +229,8 @@ def stabilize_ST(S, T, P, eos, **kw):
                 ΔT = res.x[n:]
                 S[c][k:K] += ΔS
                 T[c][k:K] += ΔT
+                # Mutate the inputs, as S and T may be re-arranged copies of them
+                S_in[c], T_in[c] = S[c], T[c]
             else:
                 raise RuntimeError(f"Cast {c} stabilization failed.")
 
-- 
2.43.0


From 623a0953230d50a7f9790f7aa299c5c245188983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:02 +0000
Subject: [PATCH 22/27] fix: val_at overwrote its input when k is a negative
 int

---
 neutralocean/lib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neutralocean/lib.py b/neutralocean/lib.py
index 39f2c82..e00be84 100644
--- a/neutralocean/lib.py
+++ b/neutralocean/lib.py
@@ -186,7 +186,7 @@ def val_at(T, k):
     """
     if isinstance(k, int) or T.ndim == 1:
         # select the k'th element along the last dimension of T
-        Tk = T[..., k]
+        Tk = T[..., k].copy()  # a copy, not a view: T must not be modified below
     elif T.ndim == k.ndim + 1:
         # if k[i,j] == 0, this will index T[i,j,-1] which will be nan, so T_bot[i,j] == nan.
         Tk = np.take_along_axis(T, k[..., None], -1)[..., 0]
-- 
2.43.0


From 5266f104396f8ad94620877c4f3fc26f20af2ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:18 +0000
Subject: [PATCH 23/27] fix: veronis read outside its arrays on a cast of one
 bottle

---
 neutralocean/label.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neutralocean/label.py b/neutralocean/label.py
index 9b64d5d..35d90ea 100644
--- a/neutralocean/label.py
+++ b/neutralocean/label.py
@@ -193,7 +193,8 @@ def pot_dens_1(p0, p_ref, P, Sppc, Tppc, eos):
 def _int_dlrpd_dz(p1, p0, P, Sppc, Tppc, dp, eos_s_t):
     # Integrate d(LRPD)/dz from p0 to p1 in 1 cast.
     if (
-        np.isnan(p0 + p1 + P[0])
+        len(P) < 2  # can't interpolate
+        or np.isnan(p0 + p1 + P[0])
         or p0 < P[0]
         or P[-1] < p0
         or p1 < P[0]
-- 
2.43.0


From d0c12469f4fc3fad70a6dab46e1589d6f33391e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:05 +0000
Subject: [PATCH 24/27] fix: a dict pin_cast selected the wrong cast on
 coordinates that do not increase

---
 neutralocean/lib.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/neutralocean/lib.py b/neutralocean/lib.py
index e00be84..b8ae800 100644
--- a/neutralocean/lib.py
+++ b/neutralocean/lib.py
@@ -361,7 +361,7 @@ def _process_pin_cast(pin_cast, S):
     if isinstance(pin_cast, dict):
         # Use the order of the dimensions of S, not the order of the dict
         return tuple(
-            int(S.get_index(k).searchsorted(pin_cast[k]))
+            _index_of_label(S.get_index(k), pin_cast[k])
             for k in S.dims
             if k in pin_cast
         )
@@ -373,6 +373,13 @@ def _process_pin_cast(pin_cast, S):
         return pin_cast
 
 
+def _index_of_label(index, label):
+    # An exact match needs no sorted index; coordinates may be decreasing.
+    if index.is_unique and label in index:
+        return int(index.get_loc(label))
+    return int(index.searchsorted(label))
+
+
 def _process_eos(eos, grav=None, rho_c=None, need_s_t=False):
     # Process equation of state argument and make cache functions
 
-- 
2.43.0


From 2a572281e52f40949e591d0aec5e8ed0a2f1bb43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:18 +0000
Subject: [PATCH 25/27] fix: ntp errors were truncated to whole numbers when
 salinity is given as integers

---
 neutralocean/ntp.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/neutralocean/ntp.py b/neutralocean/ntp.py
index b43c777..7f2184e 100644
--- a/neutralocean/ntp.py
+++ b/neutralocean/ntp.py
@@ -41,7 +41,10 @@ def ntp_epsilon_errors(s, t, p, grid, eos_s_t="gsw", grav=None, rho_c=None):
 
     eos_s_t = make_eos_s_t(eos_s_t, grav, rho_c)
 
-    s, t, p = (np.reshape(xr_to_np(x), -1) for x in (s, t, p))
+    s, t, p = (
+        np.reshape(np.asarray(xr_to_np(x), dtype=np.float64), -1)
+        for x in (s, t, p)
+    )
     a, b = (np.asarray(x) for x in edges)
     e = _ntp_epsilon_error1(s, t, p, a, b, eos_s_t)
 
-- 
2.43.0


From a4bacbc4a57cdc853dba547626485cea12c57709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:18 +0000
Subject: [PATCH 26/27] fix: omega_surf rejected an integer first guess and
 returned single precision for a single precision one

---
 neutralocean/surface/omega.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/neutralocean/surface/omega.py b/neutralocean/surface/omega.py
index 70900c6..9161cd0 100644
--- a/neutralocean/surface/omega.py
+++ b/neutralocean/surface/omega.py
@@ -252,7 +252,7 @@ def omega_surf(S, T, P, grid, pin_cast, p_init, **kw):
         p_ml = np.full(surf_shape, -np.inf)
         # p_ml = np.broadcast_to(-np.inf, (ni, nj))  # DEV: Doesn't work with @numba.njit
     # Ensure p_ml is 1D array, in case it was given as a 2D array.
-    p_ml = np.reshape(p_ml, -1)
+    p_ml = np.asarray(np.reshape(p_ml, -1), dtype=np.float64)
 
     # Pre-calculate grid adjacency needed for Breadth First Search
     edges = tuple(np.asarray(x) for x in grid["edges"])
@@ -329,9 +329,9 @@ def omega_surf(S, T, P, grid, pin_cast, p_init, **kw):
                 f'"p_init" should contain a 2D array of size {surf_shape};'
                 f" found size {p_init.shape}"
             )
-        p_init = np.reshape(p_init, -1)  # now reshape to 1D
-        pin_p = p_init[pin_c]
-        p = p_init.copy()
+        # now reshape to 1D, as a float64 copy (which can hold NaN)
+        p = np.reshape(p_init, -1).astype(np.float64)
+        pin_p = p[pin_c]
 
         # Interpolate S and T onto the surface
         s, t = interp_two(p, P, S, T, 0)
-- 
2.43.0


From 433de5de45376228b5f247f49f9eb0c2afa7c319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:18 +0000
Subject: [PATCH 27/27] fix: links and labels were wrong for unsigned integer
 data, and rejected big-endian data

---
 neutralocean/label.py | 3 ++-
 neutralocean/traj.py  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/neutralocean/label.py b/neutralocean/label.py
index 35d90ea..6842c21 100644
--- a/neutralocean/label.py
+++ b/neutralocean/label.py
@@ -2,7 +2,7 @@ import numpy as np
 import numba as nb
 
 from .ppinterp import make_pp, ppval_1_two, pval
-from .lib import _process_eos
+from .lib import _contiguous_casts, _process_eos
 
 
 def veronis(
@@ -160,6 +160,7 @@ def veronis(
 
     eos, eos_s_t = _process_eos(eos, grav, rho_c, need_s_t=True)
     ppc_fn = make_pp(interp, kind="1", out="coeffs", nans=True)
+    S, T, P = (_contiguous_casts(x) for x in (S, T, P))  # as float64
     Sppc = ppc_fn(P, S)
     Tppc = ppc_fn(P, T)
     if p0 is None:
diff --git a/neutralocean/traj.py b/neutralocean/traj.py
index cd3e408..ad13e77 100644
--- a/neutralocean/traj.py
+++ b/neutralocean/traj.py
@@ -7,7 +7,7 @@ from neutralocean.ppinterp import make_pp, ppval_1_nonan_two
 from neutralocean.eos.tools import make_eos
 from neutralocean.fzero import guess_to_bounds, brent
 from neutralocean.ppinterp import valid_range_1_two
-from neutralocean.lib import _process_casts
+from neutralocean.lib import _contiguous_casts, _process_casts
 
 
 @nb.njit
@@ -102,6 +102,7 @@ def ntp_bottle_to_cast(
     eos = make_eos(eos, grav, rho_c)
     ppc_fn = make_pp(interp, kind="1", out="coeffs", nans=False)
 
+    S, T, P = (_contiguous_casts(x) for x in (S, T, P))  # as float64
     k, K = valid_range_1_two(S, P)  # S and T have same nan-structure
 
     return _ntp_bottle_to_cast(sB, tB, pB, S, T, P, k, K, tol_p, eos, ppc_fn)
-- 
2.43.0

