From f7db48f3a90838fc468b7a2b5fb0c2153d3119a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:58 +0000
Subject: [PATCH 01/53] fix: assemble and solve the IMPES pressure system in
 float64 from the previous pressure

The accumulation term was lost in float32 next to the transmissibilities, and
CG started from zero with an absolute stopping test, so a closed reservoir in
equilibrium drifted by up to many MPa and a small right-hand side returned P=0.
---
 src/simulator/simulation.py | 52 +++++++++++++------------------------
 1 file changed, 18 insertions(+), 34 deletions(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index 6fc5c70..402542b 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -890,9 +890,9 @@ class Simulator:
         mob_t_y = torch.where(dp_y_prev > 0, mob_t[:,:-1,:], mob_t[:,1:,:])
         mob_t_z = torch.where(dp_z_prev > 0, mob_t[:,:,:-1], mob_t[:,:,1:])
 
-        Tx_t = self.T_x * mob_t_x
-        Ty_t = self.T_y * mob_t_y
-        Tz_t = self.T_z * mob_t_z
+        Tx_t = (self.T_x * mob_t_x).double()
+        Ty_t = (self.T_y * mob_t_y).double()
+        Tz_t = (self.T_z * mob_t_z).double()
 
         # 3. Скважины
         q_wells, well_bhp_terms = self._calculate_well_terms(mob_t, P_prev)
@@ -925,42 +925,26 @@ class Simulator:
                 device=amg_device,
             )
             converged = True
-            P_new = P_new_flat.view(self.reservoir.dimensions)
+            P_new = P_new_flat.to(P_prev.dtype).view(self.reservoir.dimensions)
             return P_new, converged
 
         # 5. Параметры CG из конфигурации (по умолчанию)
         cg_tol_base = self.sim_params.get("cg_tolerance", 1e-6)
         cg_max_iter_base = self.sim_params.get("cg_max_iter", 500)
 
-        # 6. Первая попытка решения CG
-        if bool(self.sim_params.get('pressure_float64', False)):
-            A64 = torch.sparse_coo_tensor(A.indices(), A.values().double(), A.size(), device=A.device).coalesce()
-            Q64 = Q.double()
-            M64 = A_diag.double() if A_diag is not None else None
-            x64, converged = self._solve_pressure_cg_pytorch(A64, Q64, M_diag=M64, tol=cg_tol_base, max_iter=cg_max_iter_base)
-            P_new_flat = x64.float()
-        else:
-            P_new_flat, converged = self._solve_pressure_cg_pytorch(A, Q, M_diag=A_diag, tol=cg_tol_base, max_iter=cg_max_iter_base)
+        # 6. Первая попытка решения CG (начальное приближение — давление с прошлого шага)
+        x0 = P_prev.reshape(-1).to(Q.dtype)
+        P_new_flat, converged = self._solve_pressure_cg_pytorch(A, Q, x0=x0, M_diag=A_diag, tol=cg_tol_base, max_iter=cg_max_iter_base)
 
         # 7. При неуспехе пробуем ещё раз с расслабленными параметрами
         if not converged:
             print("  CG не сошёлся: увеличиваем max_iter и ослабляем tol")
-            if bool(self.sim_params.get('pressure_float64', False)):
-                A64 = torch.sparse_coo_tensor(A.indices(), A.values().double(), A.size(), device=A.device).coalesce()
-                Q64 = Q.double()
-                M64 = A_diag.double() if A_diag is not None else None
-                x64, converged = self._solve_pressure_cg_pytorch(
-                    A64, Q64, M_diag=M64,
-                    tol=cg_tol_base * 10.0,
-                    max_iter=cg_max_iter_base * 4
-                )
-                P_new_flat = x64.float()
-            else:
-                P_new_flat, converged = self._solve_pressure_cg_pytorch(
-                    A, Q, M_diag=A_diag,
-                    tol=cg_tol_base * 10.0,
-                    max_iter=cg_max_iter_base * 4
-                )
+            P_new_flat, converged = self._solve_pressure_cg_pytorch(
+                A, Q, x0=x0, M_diag=A_diag,
+                tol=cg_tol_base * 10.0,
+                max_iter=cg_max_iter_base * 4
+            )
+        P_new_flat = P_new_flat.to(P_prev.dtype)
 
         P_new = P_new_flat.view(self.reservoir.dimensions)
         return P_new, converged
@@ -1566,10 +1550,10 @@ class Simulator:
         # Совокупная сжимаемость из PVT (если доступна)
         try:
             ct_tensor = self.fluid.calc_total_compressibility(self.fluid.pressure, self.fluid.s_w, self.fluid.s_g)
-            acc_term = (self.porous_volume.view(-1) * ct_tensor.view(-1) / dt)
+            acc_term = (self.porous_volume.view(-1).double() * ct_tensor.view(-1).double() / dt)
         except Exception:
-            acc_term = (self.porous_volume.view(-1) * self.fluid.cf.view(-1) / dt)
-        diag_vals = torch.zeros(N, device=self.device)
+            acc_term = (self.porous_volume.view(-1).double() * self.fluid.cf.view(-1).double() / dt)
+        diag_vals = torch.zeros(N, device=self.device, dtype=torch.float64)
         diag_vals.scatter_add_(0, rows, -vals)
         diag_vals += acc_term
         diag_vals += well_bhp_terms
@@ -1588,7 +1572,7 @@ class Simulator:
             ct_tensor_rhs = self.fluid.calc_total_compressibility(self.fluid.pressure, self.fluid.s_w, self.fluid.s_g)
         except Exception:
             ct_tensor_rhs = self.fluid.cf
-        compressibility_term = (self.porous_volume.view(-1) * ct_tensor_rhs.view(-1) / dt) * P_prev.view(-1)
+        compressibility_term = (self.porous_volume.view(-1).double() * ct_tensor_rhs.view(-1).double() / dt) * P_prev.view(-1).double()
         Q_g = torch.zeros_like(P_prev)
         _, _, dz = self.reservoir.grid_size
         if dz > 0 and self.reservoir.nz > 1:
@@ -1675,7 +1659,7 @@ class Simulator:
             z = r.clone()
         p = z.clone()
         rs_old = torch.dot(r, z)
-        if rs_old < 1e-10:
+        if rs_old < tol * tol:
             return x, True
         for i in range(max_iter):
             Ap = torch.sparse.mm(A, p.unsqueeze(1)).squeeze(1)
-- 
2.43.0


From a81a1b303fdfd24640c1bfe16382d86dc48e8a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:08 +0000
Subject: [PATCH 02/53] fix: pin the first coarse unknown of the AMG only when
 the matrix is singular

Pinning it always made the coarse correction of a regular matrix wrong: a grid
no larger than coarsest_size got P=0 in its first cell.
---
 src/solver/classical_amg.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/solver/classical_amg.py b/src/solver/classical_amg.py
index 95b7078..64468b6 100644
--- a/src/solver/classical_amg.py
+++ b/src/solver/classical_amg.py
@@ -1043,12 +1043,14 @@ class ClassicalAMG:
             print(f"  [V-CYCLE L{lvl}] ВХОД: ||x||={x.norm():.3e}, ||b||={b.norm():.3e}, n={level['n']}")
         
         if level['is_coarsest']:
-            # Прямое решение на coarsest уровне (фиксируем первую степень свободы)
+            # Прямое решение на coarsest уровне (первую степень свободы фиксируем,
+            # только если матрица вырождена: нулевые суммы строк)
             n = level['n']
             A_dense = level['A'].to_dense().clone()
             b_local = b.clone()
             x = torch.zeros_like(b_local)
-            if n > 0:
+            singular = bool((A_dense.sum(dim=1).abs() <= 1e-12 * A_dense.abs().sum(dim=1)).all())
+            if n > 0 and singular:
                 A_dense[0, :] = 0.0
                 A_dense[:, 0] = 0.0
                 A_dense[0, 0] = 1.0
-- 
2.43.0


From de52e00a2d16a75ba28439771f6c273fe0e2b058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:13 +0000
Subject: [PATCH 03/53] fix: make AMG convergence independent of the scale of
 the matrix

The smoother's 1e2 cap froze it for diagonals between 1e-6 and 1e-2, and the
per-row equilibration used below 1e-6 contradicted the interpolation (P*1 = 1),
so V-cycles stalled at relative residuals of 1e-2 to 0.8.
---
 src/solver/classical_amg.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/solver/classical_amg.py b/src/solver/classical_amg.py
index 64468b6..c4b0272 100644
--- a/src/solver/classical_amg.py
+++ b/src/solver/classical_amg.py
@@ -772,8 +772,9 @@ class ClassicalAMG:
         print(f"🔍 [ClassicalAMG] Equilibration: {'ON' if use_equilibration else 'OFF'} (threshold={EQUILIBRATION_THRESHOLD:.0e})")
         
         if use_equilibration:
-            # Применяем equilibration: A → D^(-1/2) A D^(-1/2)
-            Dhalf_inv = 1.0 / torch.sqrt(diag_orig)  # D^(-1/2)
+            # Применяем equilibration единым масштабом (median(diag)): построчное
+            # масштабирование испортило бы константную моду, а P строится с P·1 = 1
+            Dhalf_inv = torch.full_like(diag_orig, diag_median ** -0.5)
             crow = A_csr.crow_indices()
             col = A_csr.col_indices()
             vals = A_csr.values().clone()
@@ -807,7 +808,7 @@ class ClassicalAMG:
                 row_abs = self._row_abs_sum(A_current)
                 beta = 0.3  # L1-Jacobi параметр
                 denom = torch.maximum(diag_abs, beta * row_abs).clamp_min(1e-30)
-                inv_relax = (1.0 / denom).clamp(max=1e2)  # Мягкая страховка
+                inv_relax = 1.0 / denom  # Мягкая страховка
                 
                 self.levels.append({
                     'A': A_current,
@@ -835,7 +836,7 @@ class ClassicalAMG:
                 row_abs = self._row_abs_sum(A_current)
                 beta = 0.3
                 denom = torch.maximum(diag_abs, beta * row_abs).clamp_min(1e-30)
-                inv_relax = (1.0 / denom).clamp(max=1e2)
+                inv_relax = 1.0 / denom
                 
                 self.levels.append({
                     'A': A_current,
@@ -886,7 +887,7 @@ class ClassicalAMG:
             row_abs = self._row_abs_sum(A_current)
             beta = 0.3
             denom = torch.maximum(diag_abs, beta * row_abs).clamp_min(1e-30)
-            inv_relax = (1.0 / denom).clamp(max=1e2)
+            inv_relax = 1.0 / denom
             
             self.levels.append({
                 'A': A_current,
@@ -921,7 +922,7 @@ class ClassicalAMG:
             row_abs = self._row_abs_sum(A_current)
             beta = 0.3
             denom = torch.maximum(diag_abs, beta * row_abs).clamp_min(1e-30)
-            inv_relax = (1.0 / denom).clamp(max=1e2)
+            inv_relax = 1.0 / denom
             
             self.levels.append({
                 'A': A_current,
@@ -1303,7 +1304,7 @@ class ClassicalAMG:
         row_abs = self._row_abs_sum(A_lvl)
         beta = 0.3
         denom = torch.maximum(diag_abs, beta * row_abs).clamp_min(1e-30)
-        inv_relax = (1.0 / denom).clamp(max=1e2)
+        inv_relax = 1.0 / denom
         self.levels[lvl]['diag'] = diag_abs
         self.levels[lvl]['inv_relax'] = inv_relax
 
@@ -1344,7 +1345,7 @@ class ClassicalAMG:
         )
 
         if use_equilibration:
-            Dhalf_inv = 1.0 / torch.sqrt(diag_orig)
+            Dhalf_inv = torch.full_like(diag_orig, diag_median ** -0.5)
             crow = A_csr.crow_indices()
             col = A_csr.col_indices()
             vals = A_csr.values().clone()
-- 
2.43.0


From 5dbec3d20e9eeb57fd3f8ce4b2a79d2a5864d1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:17 +0000
Subject: [PATCH 04/53] fix: do not accept an AMG pressure that missed its
 tolerance

The AMG branch reported convergence whatever residual was left; it now falls
back to CG, which reports failure and lets the step be retried.
---
 src/simulator/simulation.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index 402542b..3fb8c06 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -924,9 +924,11 @@ class Simulator:
                 coarsest_size=amg_coarsest,
                 device=amg_device,
             )
-            converged = True
-            P_new = P_new_flat.to(P_prev.dtype).view(self.reservoir.dimensions)
-            return P_new, converged
+            residual = Q - torch.sparse.mm(A, P_new_flat.unsqueeze(1)).squeeze(1)
+            if residual.norm() <= amg_tol * Q.norm():
+                P_new = P_new_flat.to(P_prev.dtype).view(self.reservoir.dimensions)
+                return P_new, True
+            print("  AMG не достиг заданной точности: решаем методом CG")
 
         # 5. Параметры CG из конфигурации (по умолчанию)
         cg_tol_base = self.sim_params.get("cg_tolerance", 1e-6)
-- 
2.43.0


From 1ec853bfbef700059b6de8c343859774aeb66791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:48 +0000
Subject: [PATCH 05/53] fix: compute the well index from the cell's
 permeability and size

It took 100 (mD, unconverted) and a 1 m cell without thickness, about 1e14 times
too large: BHP wells forced the cell pressure to the BHP and their rate was the
rounding noise of that difference, of either sign.
---
 src/simulator/well.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/simulator/well.py b/src/simulator/well.py
index 8c51591..af63cbb 100644
--- a/src/simulator/well.py
+++ b/src/simulator/well.py
@@ -7,7 +7,7 @@ class Well:
     Класс для представления скважины в резервуаре.
     """
     
-    def __init__(self, name, well_type, i, j, k, radius, control_type, control_value, reservoir_dimensions, injected_phase: str = 'water', rate_type: str = 'reservoir', surface_phase: str = None, limits: dict = None, bhp_min: float = None):
+    def __init__(self, name, well_type, i, j, k, radius, control_type, control_value, reservoir_dimensions, injected_phase: str = 'water', rate_type: str = 'reservoir', surface_phase: str = None, limits: dict = None, bhp_min: float = None, cell_size: tuple = (1.0, 1.0, 1.0), permeability: float = 100.0 * 9.869233e-16):
         """
         Инициализирует скважину.
         
@@ -19,6 +19,8 @@ class Well:
             control_type: Тип контроля ('rate' или 'bhp')
             control_value: Значение контроля (дебит в м³/день или забойное давление в МПа)
             reservoir_dimensions: Размеры резервуара (nx, ny, nz)
+            cell_size: Размеры ячейки (dx, dy, dz) в метрах
+            permeability: Горизонтальная проницаемость ячейки в м^2
         """
         self.name = name
         self.type = well_type
@@ -39,16 +41,14 @@ class Well:
         self.cell_index = (i, j, k)
         self.cell_index_flat = i + j * nx + k * nx * ny
         
-        # Определяем реальные размеры ячейки из reservoir_dimensions
-        # Для Peaceman нужно знать dx, dy. Полагаем кубические ячейки и берём 1 м, если размеры не переданы.
-        dx = dy = 1.0
+        # Для Peaceman нужно знать размеры ячейки. Берём 1 м, если размеры не переданы.
+        dx, dy, dz = (float(v) for v in cell_size)
         
         # Эффективный радиус ячейки для модели Писмана
         ro = 0.28 * ((dx**2 + dy**2)**0.5) / 2
         
-        # Индекс скважины по модели Писмана (k заменим позже при гетерогенности)
-        k_h_assumed = 100.0  # мД
-        self.well_index = 2 * math.pi * k_h_assumed / (math.log(ro / radius) + 1e-12)
+        # Индекс скважины по модели Писмана, м^3: q = WI * mob * (p - p_bhp)
+        self.well_index = 2 * math.pi * permeability * dz / (math.log(ro / radius) + 1e-12)
         # Диагностика последнего шага
         self.last_q_total = None           # м3/с (знак: + инжекция, - отбор)
         self.last_surface_rates = {}       # {'oil','water','gas','liquid'} в м3/сутки
@@ -91,6 +91,11 @@ class WellManager:
             else:
                 raise ValueError(f"Неверный формат управления скважиной: {w}")
             
+            # Горизонтальная проницаемость ячейки скважины
+            k_x, k_y, _ = reservoir.permeability_tensors
+            i_c, j_c, k_c = (min(v, n - 1) for v, n in zip((i, j, k), reservoir.dimensions))
+            k_h = math.sqrt(float(k_x[i_c, j_c, k_c])) * math.sqrt(float(k_y[i_c, j_c, k_c]))
+
             # Создаем и добавляем скважину
             well = Well(
                 name=w['name'],
@@ -104,7 +109,9 @@ class WellManager:
                 rate_type=w.get('rate_type', 'reservoir'),
                 surface_phase=w.get('surface_phase'),
                 limits=w.get('limits'),
-                bhp_min=w.get('bhp_min')
+                bhp_min=w.get('bhp_min'),
+                cell_size=tuple(reservoir.grid_size),
+                permeability=k_h
             )
             self.wells.append(well)
             print(f"  > Скважина '{well.name}' добавлена в менеджер.")
-- 
2.43.0


From a190de4184cc74e96da01d33a3f17cacb975497c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:52 +0000
Subject: [PATCH 06/53] fix: keep the harmonic permeability mean exact for
 tight rock

The 1e-15 guard is of the order of 1 mD in m^2: it lowered 100 mD by 0.5 % and
a 1 mD vertical permeability by a third.
---
 src/simulator/simulation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index 3fb8c06..1f8d2f1 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -62,15 +62,15 @@ class Simulator:
             
             # Расчет проводимостей
             for i in range(nx-1):
-                k_harmonic = 2 * k_x[i, :, :] * k_x[i+1, :, :] / (k_x[i, :, :] + k_x[i+1, :, :] + 1e-15)
+                k_harmonic = 2 * k_x[i, :, :] * k_x[i+1, :, :] / (k_x[i, :, :] + k_x[i+1, :, :]).clamp(min=1e-30)
                 self.T_x[i, :, :] = k_harmonic * dy * dz / dx
             
             for j in range(ny-1):
-                k_harmonic = 2 * k_y[:, j, :] * k_y[:, j+1, :] / (k_y[:, j, :] + k_y[:, j+1, :] + 1e-15)
+                k_harmonic = 2 * k_y[:, j, :] * k_y[:, j+1, :] / (k_y[:, j, :] + k_y[:, j+1, :]).clamp(min=1e-30)
                 self.T_y[:, j, :] = k_harmonic * dx * dz / dy
             
             for k in range(nz-1):
-                k_harmonic = 2 * k_z[:, :, k] * k_z[:, :, k+1] / (k_z[:, :, k] + k_z[:, :, k+1] + 1e-15)
+                k_harmonic = 2 * k_z[:, :, k] * k_z[:, :, k+1] / (k_z[:, :, k] + k_z[:, :, k+1]).clamp(min=1e-30)
                 self.T_z[:, :, k] = k_harmonic * dx * dy / dz
         
         # Объем пористой среды для расчетов IMPES
-- 
2.43.0


From 1580a3e9c4f60bbef3c93a8232f7c1cad76ce2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:09 +0000
Subject: [PATCH 07/53] fix: hold a producer at bhp_min when its rate target
 would go below it

The switch added the rate instead of subtracting the drawdown, so it never
triggered above bhp_min, and the saturation step kept producing the full rate.
---
 src/simulator/simulation.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index 1f8d2f1..270ddc8 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -1039,7 +1039,12 @@ class Simulator:
             if i >= self.reservoir.nx or j >= self.reservoir.ny or k >= self.reservoir.nz:
                 continue
 
-            if well.control_type == 'rate':
+            control_type, p_bhp = well.control_type, well.control_value * 1e6
+            if control_type == 'rate' and well.bhp_min is not None and well.last_mode == 'bhp':
+                # Шаг давления переключил скважину на минимальное забойное давление
+                control_type, p_bhp = 'bhp', well.bhp_min * 1e6
+
+            if control_type == 'rate':
                 # Базовый дебит в м3/с
                 rate_scale = float(self.sim_params.get('global_rate_scale', 1.0))
                 q_base = (well.control_value * rate_scale) / 86400.0
@@ -1277,8 +1282,7 @@ class Simulator:
                     q_w[i, j, k] += qw_loc
                     q_g[i, j, k] += qg_loc
                     q_o[i, j, k] += qo_loc
-            elif well.control_type == 'bhp':
-                p_bhp = well.control_value * 1e6
+            elif control_type == 'bhp':
                 p_block = P_new[i, j, k]
                 q_total = well.well_index * mob_t[i, j, k] * (p_block - p_bhp)
                 if well.type == 'injector':
@@ -1625,8 +1629,9 @@ class Simulator:
                     wi = well.well_index
                     # Требуемый BHP для обеспечения заданного rate
                     # q = wi * mob_t * (p_block - p_bhp) => p_bhp_req = p_block - q/(wi*mob_t)
-                    denom = wi * mob_t_well + 1e-12
-                    p_bhp_req = p_block - rate_si / denom
+                    # (rate_si отрицателен для добывающей скважины)
+                    denom = (wi * mob_t_well).clamp(min=1e-30)
+                    p_bhp_req = p_block + rate_si / denom
                     p_bhp_min = well.bhp_min * 1e6
                     if p_bhp_req < p_bhp_min:
                         # Переключаемся на BHP-контроль на этом шаге
-- 
2.43.0


From 5d0fca7a1d277ffffbb3cd06b7b70d3439acc32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:14 +0000
Subject: [PATCH 08/53] fix: count each well once in the component balance

The rates applied by the well loop were added again, unchoked and unlimited, by
the saturation sub-steps, so the reported in/out was about twice the truth.
---
 src/simulator/simulation.py | 111 ------------------------------------
 1 file changed, 111 deletions(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index 270ddc8..bed5dc8 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -1383,117 +1383,6 @@ class Simulator:
             sg_max_t = (1.0 - so_r - S_w_cur)
             S_g_cur = torch.clamp(S_g_cur, min=sg_min_t, max=sg_max_t)
 
-            # Подшаговая интеграция компонентного баланса с учётом текущих S
-            try:
-                if self.fluid.pvt is not None:
-                    # Обновляем временно насыщенности для расчёта кривых
-                    self.fluid.s_w = S_w_cur
-                    self.fluid.s_g = S_g_cur
-                    self.fluid.s_o = 1.0 - self.fluid.s_w - self.fluid.s_g
-                    # Мобилизации и доли
-                    mu_w = self.fluid._eval_pvt(P_new, 'mu_w')
-                    mu_o = self.fluid._eval_pvt(P_new, 'mu_o')
-                    mu_g = self.fluid._eval_pvt(P_new, 'mu_g')
-                    krw = self.fluid.calc_water_kr(self.fluid.s_w)
-                    kro = self.fluid.calc_oil_kr(self.fluid.s_w, self.fluid.s_g)
-                    krg = self.fluid.calc_gas_kr(self.fluid.s_g)
-                    mob_w_cur = krw / (mu_w + 1e-12)
-                    mob_o_cur = kro / (mu_o + 1e-12)
-                    mob_g_cur = krg / (mu_g + 1e-12)
-                    mob_t_cur = mob_w_cur + mob_o_cur + mob_g_cur
-                    fw_cur = mob_w_cur / (mob_t_cur + 1e-12)
-                    fg_cur = mob_g_cur / (mob_t_cur + 1e-12)
-                    fo_cur = mob_o_cur / (mob_t_cur + 1e-12)
-                    # PVT на текущем P
-                    Bo = self.fluid._eval_pvt(P_new, 'Bo'); Bw = self.fluid._eval_pvt(P_new, 'Bw'); Bg = self.fluid._eval_pvt(P_new, 'Bg')
-                    Rs = self.fluid._eval_pvt(P_new, 'Rs')
-                    try:
-                        Rv = self.fluid._eval_pvt(P_new, 'Rv')
-                    except Exception:
-                        Rv = torch.zeros_like(Bg)
-                    dt_sub = dt / N
-                    # Скважины: вклад за подшаг
-                    for well in self.well_manager.get_wells():
-                        i, j, k = well.i, well.j, well.k
-                        if i >= self.reservoir.nx or j >= self.reservoir.ny or k >= self.reservoir.nz:
-                            continue
-                        Bo_cell = float(Bo[i, j, k]); Bw_cell = float(Bw[i, j, k]); Bg_cell = float(Bg[i, j, k])
-                        Rs_cell = float(Rs[i, j, k])
-                        try:
-                            Rv_cell = float(Rv[i, j, k])
-                        except Exception:
-                            Rv_cell = 0.0
-                        fo_ = float(fo_cur[i, j, k]); fw_ = float(fw_cur[i, j, k]); fg_ = float(fg_cur[i, j, k])
-                        # Вычисляем q_total для подшага по текущим долям
-                        if well.control_type == 'rate':
-                            rate_scale = float(self.sim_params.get('global_rate_scale', 1.0))
-                            q_base = (well.control_value * rate_scale) / 86400.0
-                            if well.type == 'injector':
-                                if getattr(well, 'rate_type', 'reservoir') == 'surface':
-                                    if getattr(well, 'injected_phase', 'water') == 'gas':
-                                        q_total_sub = q_base * Bg_cell
-                                    else:
-                                        q_total_sub = q_base * Bw_cell
-                                else:
-                                    q_total_sub = q_base
-                                q_total_sub *= 1.0
-                                # IN для газа/воды
-                                if getattr(well, 'injected_phase', 'water') == 'gas':
-                                    qg_surf = max(q_total_sub, 0.0) / max(Bg_cell, 1e-12) * 86400.0
-                                    self.component_balance['gas']['in'] += float(qg_surf * (dt_sub / 86400.0))
-                                    self.component_balance['oil']['in'] += float(Rv_cell * qg_surf * (dt_sub / 86400.0))
-                                else:
-                                    qw_surf = max(q_total_sub, 0.0) / max(Bw_cell, 1e-12) * 86400.0
-                                    self.component_balance['oil']['in'] += 0.0
-                                    self.component_balance['gas']['in'] += 0.0
-                            else:
-                                # producer
-                                if getattr(well, 'rate_type', 'reservoir') == 'surface':
-                                    sp = (well.surface_phase or 'liquid').lower()
-                                    if sp == 'oil':
-                                        denom = (fo_ / max(Bo_cell, 1e-12) + fg_ * Rv_cell / max(Bg_cell, 1e-12))
-                                        q_total_sub = - (q_base / max(denom, 1e-12))
-                                    elif sp == 'water':
-                                        q_w_res = q_base * Bw_cell
-                                        q_total_sub = - q_w_res / max(fw_, 1e-12)
-                                    elif sp == 'gas':
-                                        denom = (fg_ / max(Bg_cell, 1e-12) + fo_ * Rs_cell / max(Bo_cell, 1e-12))
-                                        q_total_sub = - (q_base / max(denom, 1e-12))
-                                    else:
-                                        denom = (fo_ / max(Bo_cell, 1e-12) + fg_ * Rv_cell / max(Bg_cell, 1e-12) + fw_ / max(Bw_cell, 1e-12))
-                                        q_total_sub = - (q_base / max(denom, 1e-12))
-                                else:
-                                    q_total_sub = -q_base
-                                qo_res = max((-q_total_sub * fo_), 0.0)
-                                qg_res = max((-q_total_sub * fg_), 0.0)
-                                oil_delta = dt_sub * (qo_res / max(Bo_cell, 1e-12) + Rv_cell * qg_res / max(Bg_cell, 1e-12))
-                                gas_delta = dt_sub * (qg_res / max(Bg_cell, 1e-12) + Rs_cell * qo_res / max(Bo_cell, 1e-12))
-                                self.component_balance['oil']['out'] += float(oil_delta)
-                                self.component_balance['gas']['out'] += float(gas_delta)
-                        elif well.control_type == 'bhp':
-                            # оценим total по текущим долям (Mobility-weighted WI уже учтён на шаге давления)
-                            wi = well.well_index
-                            p_bhp = well.control_value * 1e6
-                            p_block = float(P_new[i, j, k])
-                            # приблизим mob_t по текущим долям (линейно): используем mob_t_cur
-                            mob_t_cell = float(mob_t_cur[i, j, k])
-                            q_total_sub = wi * mob_t_cell * (p_block - p_bhp)
-                            if well.type == 'injector':
-                                if getattr(well, 'injected_phase', 'water') == 'gas':
-                                    qg_surf = max(-q_total_sub, 0.0) / max(Bg_cell, 1e-12) * 86400.0
-                                    self.component_balance['gas']['in'] += float(qg_surf * (dt_sub / 86400.0))
-                                    self.component_balance['oil']['in'] += float(Rv_cell * qg_surf * (dt_sub / 86400.0))
-                            else:
-                                qabs = abs(q_total_sub)
-                                qo_res = qabs * fo_
-                                qg_res = qabs * fg_
-                                oil_delta = dt_sub * (qo_res / max(Bo_cell, 1e-12) + Rv_cell * qg_res / max(Bg_cell, 1e-12))
-                                gas_delta = dt_sub * (qg_res / max(Bg_cell, 1e-12) + Rs_cell * qo_res / max(Bo_cell, 1e-12))
-                                self.component_balance['oil']['out'] += float(oil_delta)
-                                self.component_balance['gas']['out'] += float(gas_delta)
-            except Exception:
-                pass
-
         self.fluid.s_w = S_w_cur
         self.fluid.s_g = S_g_cur
         self.fluid.s_o = 1.0 - self.fluid.s_w - self.fluid.s_g
-- 
2.43.0


From 9af4105dee4c4dbcd58043f20e736199aa014108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:17 +0000
Subject: [PATCH 09/53] fix: include vaporised oil in calc_gas_density

rho_g includes Rv for the same table; calc_gas_density did not.
---
 src/simulator/fluid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/simulator/fluid.py b/src/simulator/fluid.py
index 4933565..6ac1707 100644
--- a/src/simulator/fluid.py
+++ b/src/simulator/fluid.py
@@ -371,7 +371,8 @@ class Fluid:
         """
         if self.pvt is not None:
             bg = self._eval_pvt(pressure, key='Bg')
-            return self.rho_gas_ref / (bg + 1e-12)
+            rv = self._eval_pvt(pressure, key='Rv')
+            return (self.rho_gas_ref + rv * self.rho_oil_ref) / (bg + 1e-12)
         return self.rho_gas_ref * (1.0 + self.gas_compressibility * (pressure - 1e5))
 
     def calc_water_kr(self, s_w):
-- 
2.43.0


From 10d9340a5fa083cd644ca82f6cdbcf87a95989a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:22 +0000
Subject: [PATCH 10/53] fix: do not lose the last step when total_time /
 time_step rounds down

0.3 / 0.1 is 2.999..., so the run stopped one step early.
---
 src/simulator/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index bed5dc8..3e554b5 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -2026,7 +2026,7 @@ class Simulator:
         animation_fps = self.sim_params.get('animation_fps', 5)
         
         # Рассчитываем количество шагов
-        num_steps = int(total_time_days / time_step_days)
+        num_steps = int(total_time_days / time_step_days + 1e-9)
         
         # Создаем уникальную директорию для данного запуска
         timestamp = datetime.datetime.now().strftime("%Y%m%d_%H%M%S")
-- 
2.43.0


From 2886b18a4cc607a41fcd4e0f0216acaf4d035d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:27 +0000
Subject: [PATCH 11/53] fix: stop a run when an IMPES step fails

The solver announces that it stops the simulation, but run() went on and saved
frames of the unchanged state under later days.
---
 src/simulator/simulation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index 3e554b5..8a3820b 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -2058,6 +2058,10 @@ class Simulator:
                 if not success:
                     print(f"  Шаг {i+1} не сошелся даже с уменьшенным шагом. Завершаем симуляцию.")
                     break
+            elif not success:
+                # IMPES сам перебирает уменьшенные шаги: дальше продолжать нечем
+                print(f"  Шаг {i+1} не сошелся. Завершаем симуляцию.")
+                break
             
             # Сохранение промежуточных результатов
             if (i + 1) % save_interval == 0 and save_interval < num_steps:
-- 
2.43.0


From e3141112ad98098fa2ba026f7a0b7e3e1e2c591b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:31 +0000
Subject: [PATCH 12/53] fix: notice when the fully implicit step does not
 converge

The step returns (converged, iterations), which is always true as a tuple, so a
failed Newton solve was accepted and the time step never reduced.
---
 src/simulator/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index 8a3820b..728b838 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -163,7 +163,7 @@ class Simulator:
             print(f"Попытка шага с dt = {current_dt/86400:.2f} дней (Попытка {attempt+1}/{max_attempts})")
             
             # Выполняем шаг с текущим значением dt
-            converged = self._fully_implicit_newton_step(current_dt)
+            converged, _ = self._fully_implicit_newton_step(current_dt)
             
             if converged:
                 print(f"Шаг успешно выполнен с dt = {current_dt/86400:.2f} дней.")
-- 
2.43.0


From ddf738b3f4f939c5491abfe97734cd3622636bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:35 +0000
Subject: [PATCH 13/53] fix: make the VTK writer work with the current
 reservoir

perm_h and perm_v no longer exist, and np.arange with a float step can yield one
node too many.
---
 src/output/vtk_writer.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/output/vtk_writer.py b/src/output/vtk_writer.py
index f50e524..b38d872 100644
--- a/src/output/vtk_writer.py
+++ b/src/output/vtk_writer.py
@@ -17,9 +17,9 @@ def save_to_vtk(reservoir, fluid, filename="simulation_results"):
 
     # Создаем координаты узлов сетки.
     # VTK ожидает координаты узлов, поэтому массив должен быть на 1 больше, чем число ячеек.
-    x = np.arange(0, (nx + 1) * dx, dx)
-    y = np.arange(0, (ny + 1) * dy, dy)
-    z = np.arange(0, (nz + 1) * dz, dz)
+    x = np.arange(nx + 1) * dx
+    y = np.arange(ny + 1) * dy
+    z = np.arange(nz + 1) * dz
 
     # Получаем данные с устройства и конвертируем в NumPy
     pressure_mpa = fluid.pressure.cpu().numpy() / 1e6 # Конвертируем в МПа для удобства
@@ -31,8 +31,8 @@ def save_to_vtk(reservoir, fluid, filename="simulation_results"):
     pressure_reshaped = pressure_mpa.reshape((nx, ny, nz), order='F')
     saturation_w_reshaped = saturation_w.reshape((nx, ny, nz), order='F')
     saturation_o_reshaped = saturation_o.reshape((nx, ny, nz), order='F')
-    perm_h_reshaped = reservoir.perm_h.cpu().numpy().reshape((nx, ny, nz), order='F')
-    perm_v_reshaped = reservoir.perm_v.cpu().numpy().reshape((nx, ny, nz), order='F')
+    perm_h_reshaped = reservoir.permeability_x.cpu().numpy().reshape((nx, ny, nz), order='F')
+    perm_v_reshaped = reservoir.permeability_z.cpu().numpy().reshape((nx, ny, nz), order='F')
     
     # Создаем словарь с данными для ячеек
     cell_data = {
-- 
2.43.0


From f8aa04b9de5aa943ed28f8f8b8a74d85fd37d735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:13 +0000
Subject: [PATCH 14/53] fix: number cells in the order the fields are flattened

Linear indices of wells and cells used the Fortran order while every field is
flattened in C order; the IMPES step rewrote the wells' index, so it changed
after the first step.
---
 src/simulator/reservoir.py | 2 +-
 src/simulator/well.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/simulator/reservoir.py b/src/simulator/reservoir.py
index 9a8eb32..d64f1b4 100644
--- a/src/simulator/reservoir.py
+++ b/src/simulator/reservoir.py
@@ -77,4 +77,4 @@ class Reservoir:
         Returns:
             Линейный индекс ячейки
         """
-        return i + j * self.nx + k * self.nx * self.ny
+        return (i * self.ny + j) * self.nz + k
diff --git a/src/simulator/well.py b/src/simulator/well.py
index af63cbb..5b380c0 100644
--- a/src/simulator/well.py
+++ b/src/simulator/well.py
@@ -39,7 +39,7 @@ class Well:
         
         nx, ny, nz = reservoir_dimensions
         self.cell_index = (i, j, k)
-        self.cell_index_flat = i + j * nx + k * nx * ny
+        self.cell_index_flat = (i * ny + j) * nz + k  # порядок flatten() полей (nx, ny, nz)
         
         # Для Peaceman нужно знать размеры ячейки. Берём 1 м, если размеры не переданы.
         dx, dy, dz = (float(v) for v in cell_size)
-- 
2.43.0


From 24df58f07ebdda5706ca39b9a71ad00cde737c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:17 +0000
Subject: [PATCH 15/53] fix: do not create or destroy a phase held below its
 critical saturation

The clamp after each sub-step raised gas (water, oil) that started below its
critical or residual saturation up to it, e.g. 2 % of free gas in every cell of
configs/gas_injection_3phase.json.
---
 src/simulator/simulation.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index 728b838..165c76a 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -1372,15 +1372,17 @@ class Simulator:
         dSg_sub = dSg / N
         S_w_cur = S_w_old
         S_g_cur = S_g_old
+        # Ячейка, уже находящаяся за критической насыщенностью, не должна менять состав из-за клампа
+        sw_min_t = torch.clamp(S_w_old, max=sw_cr)
+        sg_min_t = torch.clamp(S_g_old, max=sg_cr)
+        so_min_t = torch.clamp(1.0 - S_w_old - S_g_old, max=so_r)
         for _ in range(N):
             S_w_cur = S_w_cur + dSw_sub
             S_g_cur = S_g_cur + dSg_sub
             # мягкие клампы на случай численной погрешности (min/max как тензоры одной формы)
-            sw_min_t = torch.full_like(S_w_cur, float(sw_cr))
-            sw_max_t = (1.0 - so_r - S_g_cur)
+            sw_max_t = (1.0 - so_min_t - S_g_cur)
             S_w_cur = torch.clamp(S_w_cur, min=sw_min_t, max=sw_max_t)
-            sg_min_t = torch.full_like(S_g_cur, float(sg_cr))
-            sg_max_t = (1.0 - so_r - S_w_cur)
+            sg_max_t = (1.0 - so_min_t - S_w_cur)
             S_g_cur = torch.clamp(S_g_cur, min=sg_min_t, max=sg_max_t)
 
         self.fluid.s_w = S_w_cur
-- 
2.43.0


From f048a4ec5d7e80baef44367c66d9e14ec76838a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:46 +0000
Subject: [PATCH 16/53] fix: take each phase's mobility from the cell the phase
 flows out of

The upstream cell followed the pressure difference even where gravity or
capillary pressure drives the phase the other way, so a phase flowed out of
cells that hold none of it (truncated at the clamp, i.e. created) and a heavy
phase never sank through an immobile one.
---
 src/simulator/simulation.py | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index 165c76a..01ef34c 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -974,11 +974,6 @@ class Simulator:
 
         mob_w_x = torch.where(dp_x > 0, mob_w[:-1,:,:], mob_w[1:,:,:])
         mob_w_y = torch.where(dp_y > 0, mob_w[:,:-1,:], mob_w[:,1:,:])
-        mob_w_z = torch.where(dp_z > 0, mob_w[:,:,:-1], mob_w[:,:,1:])
-
-        mob_g_x = torch.where(dp_x > 0, mob_g[:-1,:,:], mob_g[1:,:,:])
-        mob_g_y = torch.where(dp_y > 0, mob_g[:,:-1,:], mob_g[:,1:,:])
-        mob_g_z = torch.where(dp_z > 0, mob_g[:,:,:-1], mob_g[:,:,1:])
 
         # 2. Потенциалы с учётом гравитации
         _, _, dz = self.reservoir.grid_size
@@ -991,24 +986,28 @@ class Simulator:
             pot_w_z = dp_z
             pot_g_z = dp_z
 
-        # 3. Расходы воды
+        # 3. Расходы воды (апстрим — по движущей силе фазы)
+        mob_w_z = torch.where(pot_w_z > 0, mob_w[:,:,:-1], mob_w[:,:,1:])
         flow_w_x = self.T_x * mob_w_x * dp_x
         flow_w_y = self.T_y * mob_w_y * dp_y
         flow_w_z = self.T_z * mob_w_z * pot_w_z
 
         # Капиллярное давление нефть-газ: корректируем потенциал газа
+        pot_g_x, pot_g_y = dp_x, dp_y
         if getattr(self.fluid, 'pc_og_scale', 0.0) > 0:
             pcog = self.fluid.get_capillary_pressure_og(self.fluid.s_g)
             dpcg_x = pcog[1:,:,:] - pcog[:-1,:,:]
             dpcg_y = pcog[:,1:,:] - pcog[:,:-1,:]
             dpcg_z = pcog[:,:,1:] - pcog[:,:,:-1]
-            flow_g_x = self.T_x * mob_g_x * (dp_x - dpcg_x)
-            flow_g_y = self.T_y * mob_g_y * (dp_y - dpcg_y)
-            flow_g_z = self.T_z * mob_g_z * (pot_g_z - dpcg_z)
-        else:
-            flow_g_x = self.T_x * mob_g_x * dp_x
-            flow_g_y = self.T_y * mob_g_y * dp_y
-            flow_g_z = self.T_z * mob_g_z * pot_g_z
+            pot_g_x = pot_g_x - dpcg_x
+            pot_g_y = pot_g_y - dpcg_y
+            pot_g_z = pot_g_z - dpcg_z
+        mob_g_x = torch.where(pot_g_x > 0, mob_g[:-1,:,:], mob_g[1:,:,:])
+        mob_g_y = torch.where(pot_g_y > 0, mob_g[:,:-1,:], mob_g[:,1:,:])
+        mob_g_z = torch.where(pot_g_z > 0, mob_g[:,:,:-1], mob_g[:,:,1:])
+        flow_g_x = self.T_x * mob_g_x * pot_g_x
+        flow_g_y = self.T_y * mob_g_y * pot_g_y
+        flow_g_z = self.T_z * mob_g_z * pot_g_z
 
         # 4. Дивергенция
         div_w = torch.zeros_like(S_w_old)
-- 
2.43.0


From 0792c74402f8f53beb2bb87a036929abac47bb88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:17 +0000
Subject: [PATCH 17/53] fix: apply the configured krw_end and krg_end

They were read from relative_permeability and never used.
---
 src/simulator/fluid.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/simulator/fluid.py b/src/simulator/fluid.py
index 6ac1707..e4b31f8 100644
--- a/src/simulator/fluid.py
+++ b/src/simulator/fluid.py
@@ -258,7 +258,7 @@ class Fluid:
         
         # d(krw)/d(sw) = d(krw)/d(s_norm) * d(s_norm)/d(sw)
         # d(krw)/d(s_norm) = nw * s_norm^(nw-1)
-        dkrw_dsw = self.nw * (s_norm ** (self.nw - 1)) * dsw_norm_dsw
+        dkrw_dsw = self.krw_end * self.nw * (s_norm ** (self.nw - 1)) * dsw_norm_dsw
         
         # d(kro)/d(sw) = d(kro)/d(s_norm) * d(s_norm)/d(sw)
         # d(kro)/d(s_norm) = -no * (1-s_norm)^(no-1)
@@ -386,7 +386,7 @@ class Fluid:
             Тензор относительной проницаемости воды
         """
         s_norm = self._get_normalized_saturation(s_w)
-        return s_norm**self.nw
+        return self.krw_end * s_norm**self.nw
 
     def calc_oil_kr(self, s_w, s_g=None):
         """
@@ -433,7 +433,7 @@ class Fluid:
         
         # Используем показатель Кори для газа (обычно 2-3)
         ng = getattr(self, 'ng', 2.0)  # Показатель Кори для газа
-        return s_g_norm**ng
+        return self.krg_end * s_g_norm**ng
 
     def calc_dkrw_dsw(self, s_w):
         """
@@ -453,7 +453,7 @@ class Fluid:
         
         # Производная dkrw/dsw = dkrw/ds_norm * ds_norm/dsw
         result = torch.zeros_like(s_w)
-        result[mask] = self.nw * s_norm[mask]**(self.nw - 1) / normalized_range
+        result[mask] = self.krw_end * self.nw * s_norm[mask]**(self.nw - 1) / normalized_range
         
         return result
 
@@ -501,7 +501,7 @@ class Fluid:
         
         # Производная dkrg/dsg = ng * s_g_norm^(ng-1) / normalized_range
         result = torch.zeros_like(s_g)
-        result[mask] = ng * s_g_norm[mask]**(ng - 1) / normalized_range
+        result[mask] = self.krg_end * ng * s_g_norm[mask]**(ng - 1) / normalized_range
         
         return result
 
-- 
2.43.0


From 33e9afd956e43f336e60ecf52e7756e2d5fa1d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:37 +0000
Subject: [PATCH 18/53] fix: keep gas out of the room of immobile water and oil
 when a step overshoots

---
 src/simulator/simulation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index 01ef34c..ce92f64 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -1378,6 +1378,8 @@ class Simulator:
         for _ in range(N):
             S_w_cur = S_w_cur + dSw_sub
             S_g_cur = S_g_cur + dSg_sub
+            # газ не может занять место неподвижных воды и нефти
+            S_g_cur = torch.clamp(S_g_cur, min=sg_min_t, max=1.0 - so_min_t - sw_min_t)
             # мягкие клампы на случай численной погрешности (min/max как тензоры одной формы)
             sw_max_t = (1.0 - so_min_t - S_g_cur)
             S_w_cur = torch.clamp(S_w_cur, min=sw_min_t, max=sw_max_t)
-- 
2.43.0


From 98607cd083068da826aff1f65bf972a749d3bc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:12 +0000
Subject: [PATCH 19/53] fix: do not shut a producer in for a phase it does not
 take

---
 src/simulator/simulation.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index ce92f64..ef63be5 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -1150,11 +1150,11 @@ class Simulator:
                         alpha = 1.0
                         if dSw_well > 0.0:
                             alpha = min(alpha, sw_up / max(dSw_well, 1e-12))
-                        else:
+                        elif dSw_well < 0.0:
                             alpha = min(alpha, sw_dn / max(abs(dSw_well), 1e-12))
                         if dSg_well > 0.0:
                             alpha = min(alpha, sg_up / max(dSg_well, 1e-12))
-                        else:
+                        elif dSg_well < 0.0:
                             alpha = min(alpha, sg_dn / max(abs(dSg_well), 1e-12))
                         alpha = max(0.0, min(1.0, alpha))
                         q_total *= alpha
@@ -1229,11 +1229,11 @@ class Simulator:
                             alpha = 1.0
                             if dSw_well > 0.0:
                                 alpha = min(alpha, sw_up / max(dSw_well, 1e-12))
-                            else:
+                            elif dSw_well < 0.0:
                                 alpha = min(alpha, sw_dn / max(abs(dSw_well), 1e-12))
                             if dSg_well > 0.0:
                                 alpha = min(alpha, sg_up / max(dSg_well, 1e-12))
-                            else:
+                            elif dSg_well < 0.0:
                                 alpha = min(alpha, sg_dn / max(abs(dSg_well), 1e-12))
                             alpha = max(0.0, min(1.0, alpha))
                             q_total *= alpha
-- 
2.43.0


From f5e73faf9aa5bd367e7f198f5a090ef16a148fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:51 +0000
Subject: [PATCH 20/53] fix: count backflow of pressure-controlled wells on the
 side it flows

---
 src/simulator/simulation.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index ef63be5..70f29d8 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -1290,14 +1290,15 @@ class Simulator:
                         q_g[i, j, k] += (-q_total)
                         if self.fluid.pvt is not None:
                             Bg_cell = float(self.fluid._eval_pvt(P_new, 'Bg')[i, j, k])
-                            qg_surf = max(-q_total, 0.0) / max(Bg_cell, 1e-12) * 86400.0
+                            qg_surf = abs(float(q_total)) / max(Bg_cell, 1e-12) * 86400.0
                             try:
                                 Rv_cell = float(self.fluid._eval_pvt(P_new, 'Rv')[i, j, k])
                             except Exception:
                                 Rv_cell = 0.0
                             scale = float(dt / 86400.0)
-                            self.component_balance['gas']['in'] += float(qg_surf * scale)
-                            self.component_balance['oil']['in'] += float(Rv_cell * qg_surf * scale)
+                            side = 'out' if q_total > 0 else 'in'  # приток в нагнетательную скважину
+                            self.component_balance['gas'][side] += float(qg_surf * scale)
+                            self.component_balance['oil'][side] += float(Rv_cell * qg_surf * scale)
                     else:
                         q_w[i, j, k] += (-q_total)
                 else:
@@ -1327,8 +1328,9 @@ class Simulator:
                         qg_res = float((qabs * fg_))
                         oil_delta = scale_t * (qo_res / max(Bo_cell, 1e-12) + Rv_cell * qg_res / max(Bg_cell, 1e-12))
                         gas_delta = scale_t * (qg_res / max(Bg_cell, 1e-12) + Rs_cell * qo_res / max(Bo_cell, 1e-12))
-                        self.component_balance['oil']['out'] += oil_delta
-                        self.component_balance['gas']['out'] += gas_delta
+                        side = 'in' if q_total < 0 else 'out'  # переток в пласт при p_block < p_bhp
+                        self.component_balance['oil'][side] += float(oil_delta)
+                        self.component_balance['gas'][side] += float(gas_delta)
                         self._dbg(
                             f"WELL_OUT name={well.name} mode=bhp cell=({i},{j},{k}) q_total={q_total:.6e} fw={fw_:.3f} fg={fg_:.3f} fo={fo_:.3f}",
                             f"Bo={Bo_cell:.4g} Bw={Bw_cell:.4g} Bg={Bg_cell:.4g} Rs={Rs_cell:.4g} Rv={Rv_cell:.4g}",
-- 
2.43.0


From b08bfba5d71a8c22eed09acd000682a8b20bf2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:55 +0000
Subject: [PATCH 21/53] fix: report the rates of pressure-controlled producers

---
 src/simulator/simulation.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index 70f29d8..fbe2be7 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -1320,8 +1320,11 @@ class Simulator:
                             Rv_cell = 0.0
                         fo_ = fo[i, j, k].item(); fw_ = fw[i, j, k].item(); fg_ = fg[i, j, k].item()
                         qabs = abs(q_total)
-                        oil_surf = qabs * (fo_ / max(Bo_cell, 1e-12) + fg_ * Rv_cell / max(Bg_cell, 1e-12)) * 86400.0
-                        gas_surf = qabs * (fg_ / max(Bg_cell, 1e-12) + fo_ * Rs_cell / max(Bo_cell, 1e-12)) * 86400.0
+                        oil_surf = float(qabs) * (fo_ / max(Bo_cell, 1e-12) + fg_ * Rv_cell / max(Bg_cell, 1e-12)) * 86400.0
+                        wat_surf = float(qabs) * (fw_ / max(Bw_cell, 1e-12)) * 86400.0
+                        gas_surf = float(qabs) * (fg_ / max(Bg_cell, 1e-12) + fo_ * Rs_cell / max(Bo_cell, 1e-12)) * 86400.0
+                        well.last_surface_rates = {"oil": oil_surf, "water": wat_surf, "gas": gas_surf, "liquid": oil_surf + wat_surf}
+                        well.last_q_total = -float(q_total)
                         # Компоненты OUT по фактическим reservoir-дебитам при BHP
                         scale_t = float(dt)
                         qo_res = float((qabs * fo_))
-- 
2.43.0


From 580cfd687562d2eb0a9e66808855d1b62ad6cdbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:33 +0000
Subject: [PATCH 22/53] fix: do not choke a producer by a trace of a phase

The availability choke divided by at least 1e-12, so a cell with a trace of gas or
water (say 1e-20, ahead of a front) shut its producer in although the well takes
less than what is there.
---
 src/simulator/simulation.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index fbe2be7..0ab1099 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -1069,9 +1069,9 @@ class Simulator:
                         dSg_well = (dt / max(PV_cell, 1e-12)) * q_total
                         alpha = 1.0
                         if dSg_well > 0.0:
-                            alpha = min(alpha, sg_up / max(dSg_well, 1e-12))
+                            alpha = min(alpha, sg_up / max(dSg_well, 1e-300))
                         else:
-                            alpha = min(alpha, (sg - sg_min) / max(abs(dSg_well), 1e-12))
+                            alpha = min(alpha, (sg - sg_min) / max(abs(dSg_well), 1e-300))
                         q_total *= max(0.0, min(1.0, alpha))
                         q_g[i, j, k] += q_total
                         # Компоненты (surface) — считаем по фактическому q_total после choke
@@ -1098,9 +1098,9 @@ class Simulator:
                         dSw_well = (dt / max(PV_cell, 1e-12)) * q_total
                         alpha = 1.0
                         if dSw_well > 0.0:
-                            alpha = min(alpha, sw_up / max(dSw_well, 1e-12))
+                            alpha = min(alpha, sw_up / max(dSw_well, 1e-300))
                         else:
-                            alpha = min(alpha, (sw - sw_min) / max(abs(dSw_well), 1e-12))
+                            alpha = min(alpha, (sw - sw_min) / max(abs(dSw_well), 1e-300))
                         q_total *= max(0.0, min(1.0, alpha))
                         q_w[i, j, k] += q_total
                 else:
@@ -1149,13 +1149,13 @@ class Simulator:
                         dSg_well = (dt / max(PV_cell, 1e-12)) * (q_total * fg_)
                         alpha = 1.0
                         if dSw_well > 0.0:
-                            alpha = min(alpha, sw_up / max(dSw_well, 1e-12))
+                            alpha = min(alpha, sw_up / max(dSw_well, 1e-300))
                         elif dSw_well < 0.0:
-                            alpha = min(alpha, sw_dn / max(abs(dSw_well), 1e-12))
+                            alpha = min(alpha, sw_dn / max(abs(dSw_well), 1e-300))
                         if dSg_well > 0.0:
-                            alpha = min(alpha, sg_up / max(dSg_well, 1e-12))
+                            alpha = min(alpha, sg_up / max(dSg_well, 1e-300))
                         elif dSg_well < 0.0:
-                            alpha = min(alpha, sg_dn / max(abs(dSg_well), 1e-12))
+                            alpha = min(alpha, sg_dn / max(abs(dSg_well), 1e-300))
                         alpha = max(0.0, min(1.0, alpha))
                         q_total *= alpha
 
@@ -1228,13 +1228,13 @@ class Simulator:
                             dSg_well = (dt / max(PV_cell, 1e-12)) * (q_total * fg_)
                             alpha = 1.0
                             if dSw_well > 0.0:
-                                alpha = min(alpha, sw_up / max(dSw_well, 1e-12))
+                                alpha = min(alpha, sw_up / max(dSw_well, 1e-300))
                             elif dSw_well < 0.0:
-                                alpha = min(alpha, sw_dn / max(abs(dSw_well), 1e-12))
+                                alpha = min(alpha, sw_dn / max(abs(dSw_well), 1e-300))
                             if dSg_well > 0.0:
-                                alpha = min(alpha, sg_up / max(dSg_well, 1e-12))
+                                alpha = min(alpha, sg_up / max(dSg_well, 1e-300))
                             elif dSg_well < 0.0:
-                                alpha = min(alpha, sg_dn / max(abs(dSg_well), 1e-12))
+                                alpha = min(alpha, sg_dn / max(abs(dSg_well), 1e-300))
                             alpha = max(0.0, min(1.0, alpha))
                             q_total *= alpha
                             lim = getattr(well, 'limits', None) or {}
-- 
2.43.0


From fb7af2dc1d3a2a4cc10fad566faf6e64dcd87c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:17 +0000
Subject: [PATCH 23/53] fix: add gravity and capillary flows of the pressure
 equation in float64

Large face flows cancelled in float32, which left false sources: a closed column at
its hydrostatic pressure drifted by kilopascals in a long step.
---
 src/simulator/simulation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index 0ab1099..d689a8e 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -1476,7 +1476,8 @@ class Simulator:
         except Exception:
             ct_tensor_rhs = self.fluid.cf
         compressibility_term = (self.porous_volume.view(-1).double() * ct_tensor_rhs.view(-1).double() / dt) * P_prev.view(-1).double()
-        Q_g = torch.zeros_like(P_prev)
+        # float64: иначе округления при сложении больших потоков дают ложные источники
+        Q_g = torch.zeros_like(P_prev, dtype=torch.float64)
         _, _, dz = self.reservoir.grid_size
         if dz > 0 and self.reservoir.nz > 1:
             mob_w_z = torch.where(dp_z_prev > 0, mob_w[:,:,:-1], mob_w[:,:,1:])
@@ -1488,7 +1489,7 @@ class Simulator:
             grav_flow = self.T_z * self.g * dz * (mob_w_z * rho_w_z + mob_o_z * rho_o_z + mob_g_z * rho_g_z)
             Q_g[:,:,:-1] -= grav_flow
             Q_g[:,:,1:]  += grav_flow
-        Q_pc = torch.zeros_like(P_prev)
+        Q_pc = torch.zeros_like(P_prev, dtype=torch.float64)
         if self.fluid.pc_scale > 0:
             pc = self.fluid.get_capillary_pressure(self.fluid.s_w)
             mob_o_x = torch.where(dp_x_prev > 0, mob_o[:-1,:,:], mob_o[1:,:,:])
-- 
2.43.0


From c6f9e8dd300fc1f5d0094a06726ada2b11271e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:40 +0000
Subject: [PATCH 24/53] fix: Stone II left oil mobile at residual saturation
 when ko_end_g exceeds ko_end_w

---
 src/simulator/fluid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/simulator/fluid.py b/src/simulator/fluid.py
index e4b31f8..bfdc161 100644
--- a/src/simulator/fluid.py
+++ b/src/simulator/fluid.py
@@ -410,7 +410,8 @@ class Fluid:
             # Двухфазные кривые
             krow = self.ko_end_w * (1.0 - swn) ** self.now
             krog = self.ko_end_g * (1.0 - sgn) ** self.nog
-            kro = krow + krog - min(self.ko_end_w, self.ko_end_g)
+            # Вычитается концевая точка кривой нефть-газ: при Sg=0 остаётся krow
+            kro = krow + krog - self.ko_end_g
             return torch.clamp(kro, min=0.0)
         # Corey (двухфазный oil-water)
         s_norm = self._get_normalized_saturation(s_w)
-- 
2.43.0


From aae98bc24ab431951d84fe899c66412aacdfdd33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:44 +0000
Subject: [PATCH 25/53] fix: Stone II oil curve failed for saturations passed
 as a flat vector

---
 src/simulator/fluid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simulator/fluid.py b/src/simulator/fluid.py
index bfdc161..0389f67 100644
--- a/src/simulator/fluid.py
+++ b/src/simulator/fluid.py
@@ -401,7 +401,7 @@ class Fluid:
         """
         if self.relperm_model == 'stone2':
             if s_g is None:
-                s_g = self.s_g
+                s_g = self.s_g.reshape(s_w.shape)
             # Двухфазные нормировки
             denom_w = 1.0 - self.sw_cr - self.so_r
             swn = torch.clamp((s_w - self.sw_cr) / (denom_w + 1e-12), 0.0, 1.0)
-- 
2.43.0


From 527b1f8db7e170bdd488004c70c2753d1eb8c173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:47 +0000
Subject: [PATCH 26/53] fix: oil relative permeability derivatives ignored the
 Stone II end point and exponent

---
 src/simulator/fluid.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/simulator/fluid.py b/src/simulator/fluid.py
index 0389f67..52c9d53 100644
--- a/src/simulator/fluid.py
+++ b/src/simulator/fluid.py
@@ -228,6 +228,12 @@ class Fluid:
         s_norm = (s_w - self.sw_cr) / (1 - self.sw_cr - self.so_r)
         return torch.clamp(s_norm, 0.0, 1.0)
 
+    def _oil_water_curve(self):
+        """Концевая точка и показатель кривой kro(Sw), действующей в текущей модели ОФП."""
+        if self.relperm_model == 'stone2':
+            return self.ko_end_w, self.now
+        return 1.0, self.no
+
     def get_rel_perms(self, s_w, s_g=None):
         """
         Вычисляет относительные фазовые проницаемости для воды, нефти и газа по модели Кори.
@@ -262,11 +268,14 @@ class Fluid:
         
         # d(kro)/d(sw) = d(kro)/d(s_norm) * d(s_norm)/d(sw)
         # d(kro)/d(s_norm) = -no * (1-s_norm)^(no-1)
-        dkro_dsw = -self.no * ((1 - s_norm) ** (self.no - 1)) * dsw_norm_dsw
+        ko_end, n_o = self._oil_water_curve()
+        dkro_dsw = -ko_end * n_o * ((1 - s_norm) ** (n_o - 1)) * dsw_norm_dsw
         
         # Обработка особых случаев на границах
         dkrw_dsw = torch.where(s_norm <= 0, torch.zeros_like(dkrw_dsw), dkrw_dsw)
         dkro_dsw = torch.where(s_norm >= 1, torch.zeros_like(dkro_dsw), dkro_dsw)
+        if self.relperm_model == 'stone2':
+            dkro_dsw = torch.where(self.calc_oil_kr(s_w) <= 0, torch.zeros_like(dkro_dsw), dkro_dsw)
         
         return dkro_dsw, dkrw_dsw
 
@@ -476,7 +485,10 @@ class Fluid:
         
         # Производная dkro/dsw = dkro/ds_norm * ds_norm/dsw
         result = torch.zeros_like(s_w)
-        result[mask] = -self.no * (1 - s_norm[mask])**(self.no - 1) / normalized_range
+        if self.relperm_model == 'stone2':
+            mask = mask & (self.calc_oil_kr(s_w) > 0)
+        ko_end, n_o = self._oil_water_curve()
+        result[mask] = -ko_end * n_o * (1 - s_norm[mask])**(n_o - 1) / normalized_range
         
         return result
     
-- 
2.43.0


From 2f517310845b5ae087bfd2dc9622f6dd549b8dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:23 +0000
Subject: [PATCH 27/53] fix: analytic derivatives kept a slope where their
 curve is clamped

---
 src/simulator/fluid.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/simulator/fluid.py b/src/simulator/fluid.py
index 52c9d53..ff90465 100644
--- a/src/simulator/fluid.py
+++ b/src/simulator/fluid.py
@@ -272,8 +272,9 @@ class Fluid:
         dkro_dsw = -ko_end * n_o * ((1 - s_norm) ** (n_o - 1)) * dsw_norm_dsw
         
         # Обработка особых случаев на границах
-        dkrw_dsw = torch.where(s_norm <= 0, torch.zeros_like(dkrw_dsw), dkrw_dsw)
-        dkro_dsw = torch.where(s_norm >= 1, torch.zeros_like(dkro_dsw), dkro_dsw)
+        clamped = (s_w < self.sw_cr) | (s_w > 1 - self.so_r)
+        dkrw_dsw = torch.where((s_norm <= 0) | clamped, torch.zeros_like(dkrw_dsw), dkrw_dsw)
+        dkro_dsw = torch.where((s_norm >= 1) | clamped, torch.zeros_like(dkro_dsw), dkro_dsw)
         if self.relperm_model == 'stone2':
             dkro_dsw = torch.where(self.calc_oil_kr(s_w) <= 0, torch.zeros_like(dkro_dsw), dkro_dsw)
         
@@ -333,7 +334,7 @@ class Fluid:
         dpc_dsn = self.pc_scale * self.pc_exponent * (1.0 - s_norm + 1e-6) ** (-self.pc_exponent - 1)
         
         dpc_dsw = dpc_dsn * dsw_norm_dsw
-        dpc_dsw = torch.where(s_norm >= 1, torch.zeros_like(dpc_dsw), dpc_dsw)
+        dpc_dsw = torch.where((s_norm >= 1) | (s_w < self.sw_cr), torch.zeros_like(dpc_dsw), dpc_dsw)
         return dpc_dsw
 
     def calc_water_density(self, pressure):
@@ -410,7 +411,9 @@ class Fluid:
         """
         if self.relperm_model == 'stone2':
             if s_g is None:
-                s_g = self.s_g.reshape(s_w.shape)
+                s_g = self.s_g
+                if s_g.numel() == s_w.numel():
+                    s_g = s_g.reshape(s_w.shape)
             # Двухфазные нормировки
             denom_w = 1.0 - self.sw_cr - self.so_r
             swn = torch.clamp((s_w - self.sw_cr) / (denom_w + 1e-12), 0.0, 1.0)
-- 
2.43.0


From f9fcbb5c4e410fd34f125fd979368a05832125d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:55 +0000
Subject: [PATCH 28/53] fix: phase limits were ignored by a rate producer on
 its minimum bottom-hole pressure

---
 src/simulator/simulation.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index d689a8e..8654beb 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -1284,6 +1284,18 @@ class Simulator:
             elif control_type == 'bhp':
                 p_block = P_new[i, j, k]
                 q_total = well.well_index * mob_t[i, j, k] * (p_block - p_bhp)
+                lim = getattr(well, 'limits', None) or {}
+                if well.control_type == 'rate' and well.type == 'producer' and lim and self.fluid.pvt is not None:
+                    # Фазовые лимиты действуют и на минимальном забойном давлении
+                    fo_, fw_, fg_ = fo[i, j, k].item(), fw[i, j, k].item(), fg[i, j, k].item()
+                    Bo_cell, Bw_cell, Bg_cell, Rs_cell, Rv_cell = (
+                        float(self.fluid._eval_pvt(P_new, key)[i, j, k]) for key in ('Bo', 'Bw', 'Bg', 'Rs', 'Rv'))
+                    denom_o = fo_ / max(Bo_cell, 1e-12) + fg_ * Rv_cell / max(Bg_cell, 1e-12)
+                    denom_w = fw_ / max(Bw_cell, 1e-12)
+                    denom_g = fg_ / max(Bg_cell, 1e-12) + fo_ * Rs_cell / max(Bo_cell, 1e-12)
+                    for key, denom in (('wopr', denom_o), ('wlpr', denom_w), ('wgpr', denom_g), ('liqr', denom_o + denom_w)):
+                        if key in lim and denom > 0:
+                            q_total = q_total.clamp(max=(lim[key] / 86400.0) / denom)
                 if well.type == 'injector':
                     injected_phase = getattr(well, 'injected_phase', 'water')
                     if injected_phase == 'gas':
-- 
2.43.0


From 22791b879cce216cdde5e2d9fa4148d9dc29c6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:37 +0000
Subject: [PATCH 29/53] fix: the AMG hierarchy of a matrix changed from run to
 run

---
 src/solver/classical_amg.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/solver/classical_amg.py b/src/solver/classical_amg.py
index c4b0272..b09d9f2 100644
--- a/src/solver/classical_amg.py
+++ b/src/solver/classical_amg.py
@@ -121,8 +121,9 @@ def classical_coarsening(A_csr: torch.Tensor, theta: float = 0.25) -> Tuple[torc
     deg.scatter_add_(0, ii, torch.ones_like(ii, dtype=torch.float32))
     deg.scatter_add_(0, jj, torch.ones_like(jj, dtype=torch.float32))
     
-    # Случайный tie-breaker
-    w = torch.rand(n, device=device)
+    # Псевдослучайный tie-breaker: фиксированное зерно, чтобы одна и та же матрица
+    # всегда давала одну и ту же иерархию
+    w = torch.rand(n, generator=torch.Generator().manual_seed(0)).to(device)
     score = deg + 1e-3 * w  # лексикографическое сравнение
     
     # Максимум score среди соседей (для обоих направлений)
-- 
2.43.0


From 2eabab9c534dfda6d3090b1011ed8a18c53b4c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:09 +0000
Subject: [PATCH 30/53] fix: simulators of equal size shared their AMG
 hierarchy

---
 src/simulator/simulation.py | 4 ++++
 src/solver/pressure_amg.py  | 8 ++++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index 8654beb..c95c806 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -78,6 +78,9 @@ class Simulator:
         
         # Гравитационная постоянная для IMPES
         self.g = 9.81
+
+        # AMG-иерархии этого симулятора (общий кэш сделал бы результат зависимым от других симуляторов)
+        self._amg_cache = {}
         
         # Трекер баланса масс по фазам (кг)
         self.mass_balance = {
@@ -923,6 +926,7 @@ class Simulator:
                 max_levels=amg_max_levels,
                 coarsest_size=amg_coarsest,
                 device=amg_device,
+                cache=self._amg_cache,
             )
             residual = Q - torch.sparse.mm(A, P_new_flat.unsqueeze(1)).squeeze(1)
             if residual.norm() <= amg_tol * Q.norm():
diff --git a/src/solver/pressure_amg.py b/src/solver/pressure_amg.py
index 70f08d3..af56517 100644
--- a/src/solver/pressure_amg.py
+++ b/src/solver/pressure_amg.py
@@ -43,11 +43,13 @@ def amg_solve(
     coarsest_size: int = 200,
     device: Optional[str] = "auto",
     enable_equilibration: Optional[bool] = None,
+    cache: Optional[Dict[Tuple[Any, ...], ClassicalAMG]] = None,
 ) -> torch.Tensor:
     """
     Solve A x = b using Classical RS-AMG V-cycles.
     - A: torch sparse (COO or CSR), preferably SPD M-matrix from IMPES pressure discretization
     - b: dense RHS (1-D)
+    - cache: dictionary of hierarchies to reuse (shared by the whole process by default)
     Returns x on the same device/dtype as b (float32 by default in simulator).
     """
     # Target device selection
@@ -69,7 +71,9 @@ def amg_solve(
         str(target_device)
     )
 
-    amg = _AMG_CACHE.get(cache_key)
+    if cache is None:
+        cache = _AMG_CACHE
+    amg = cache.get(cache_key)
     if amg is None:
         print(f"[AMG solve] building hierarchy (cache miss) key={cache_key}")
         amg = ClassicalAMG(
@@ -78,7 +82,7 @@ def amg_solve(
             max_levels=max_levels,
             coarsest_size=coarsest_size,
         )
-        _AMG_CACHE[cache_key] = amg
+        cache[cache_key] = amg
     else:
         print(f"[AMG solve] reusing hierarchy (cache hit) key={cache_key}")
         amg.update_matrix(A_csr64)
-- 
2.43.0


From 2103c513c7dd9839d73a42da1a9f9595bb69db08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:38 +0000
Subject: [PATCH 31/53] fix: the AMG never converged with more than 500
 unknowns on the coarsest level

---
 src/solver/classical_amg.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/solver/classical_amg.py b/src/solver/classical_amg.py
index b09d9f2..365cafa 100644
--- a/src/solver/classical_amg.py
+++ b/src/solver/classical_amg.py
@@ -11,6 +11,7 @@ TRUE RS-AMG с:
 import torch
 import numpy as np
 import scipy.sparse as sp
+from scipy.sparse.linalg import spsolve
 from typing import Tuple, Optional
 import time
 
@@ -1064,12 +1065,10 @@ class ClassicalAMG:
                 except RuntimeError:
                     x = torch.linalg.lstsq(A_dense, b_local.unsqueeze(1)).solution.squeeze(1)
             else:
-                inv_relax = level['inv_relax']
-                omega = 0.7
-                for it in range(50):
-                    r = b_local - self._spmv_csr(level['A'], x)
-                    delta = omega * inv_relax * r
-                    x = x + delta
+                # Крупный coarsest-уровень: разреженное прямое решение (сглаживание с нуля
+                # не сходится, сколько бы V-циклов ни сделать)
+                x_np = spsolve(sp.csc_matrix(A_dense.cpu().numpy()), b_local.cpu().numpy())
+                x = torch.from_numpy(x_np).to(b_local.device, dtype=b_local.dtype)
             return x
         
         # Pre-smoothing
-- 
2.43.0


From 09f97b14b48d5b29da483ecaefd24443b248d143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:44 +0000
Subject: [PATCH 32/53] fix: rebuild a cached AMG hierarchy that does not suit
 the new matrix

---
 src/solver/pressure_amg.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/solver/pressure_amg.py b/src/solver/pressure_amg.py
index af56517..e9df4c3 100644
--- a/src/solver/pressure_amg.py
+++ b/src/solver/pressure_amg.py
@@ -74,7 +74,8 @@ def amg_solve(
     if cache is None:
         cache = _AMG_CACHE
     amg = cache.get(cache_key)
-    if amg is None:
+    reused = amg is not None
+    if not reused:
         print(f"[AMG solve] building hierarchy (cache miss) key={cache_key}")
         amg = ClassicalAMG(
             A_csr64,
@@ -89,6 +90,20 @@ def amg_solve(
     # Solve with V-cycles until tol
     x64 = amg.solve(b64, x0=None, tol=tol, max_iter=max_cycles)
 
+    if reused:
+        # A hierarchy built for another matrix may interpolate badly: rebuild it for this one
+        r64 = b64 - torch.sparse.mm(A_csr64, x64.unsqueeze(1)).squeeze(1)
+        if not bool(r64.norm() <= tol * b64.norm()):
+            print("[AMG solve] reused hierarchy missed the tolerance: rebuilding")
+            amg = ClassicalAMG(
+                A_csr64,
+                theta=theta,
+                max_levels=max_levels,
+                coarsest_size=coarsest_size,
+            )
+            cache[cache_key] = amg
+            x64 = amg.solve(b64, x0=None, tol=tol, max_iter=max_cycles)
+
     # Return to original b's device/dtype (float32 in our pipeline)
     return x64.to(b.device, dtype=b.dtype)
 
-- 
2.43.0


From 92d0559e05f6b7461f7e693de3be7a4bf75cbaf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:24 +0000
Subject: [PATCH 33/53] fix: no animation was written when the output name
 contains glob characters

---
 src/simulator/simulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index c95c806..56b5d1d 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -2240,7 +2240,7 @@ class Simulator:
         # а не лексикографически, чтобы кадры шли в правильном хронологическом порядке
         regex = re.compile(r'_step_(\d+)\.png$')
         step_files = []
-        for path in glob.glob(os.path.join(images_dir, "*_step_*.png")):
+        for path in glob.glob(os.path.join(glob.escape(images_dir), "*_step_*.png")):
             m = regex.search(os.path.basename(path))
             if m:
                 step_files.append((int(m.group(1)), path))
@@ -2250,7 +2250,7 @@ class Simulator:
         images = [p for _, p in step_files]
         
         # Добавляем финальный кадр, если существует (лежит в родительской директории)
-        final_candidates = glob.glob(os.path.join(os.path.dirname(images_dir), f"{os.path.basename(images_dir).split(os.sep)[-1].replace('intermediate','')}*_final.png"))
+        final_candidates = glob.glob(os.path.join(glob.escape(os.path.dirname(images_dir)), f"{os.path.basename(images_dir).split(os.sep)[-1].replace('intermediate','')}*_final.png"))
         if final_candidates:
             images.append(final_candidates[0])
         
-- 
2.43.0


From 1ec514bed1003af419ad360c6c43c329d66b4169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:55 +0000
Subject: [PATCH 34/53] fix: the animation cropped frames that are larger than
 its first one

---
 src/simulator/simulation.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index 56b5d1d..8d11846 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -2255,10 +2255,16 @@ class Simulator:
             images.append(final_candidates[0])
         
         # Создаем анимацию
+        # Кадры с газом шире кадров без газа: дополняем до общего размера белым,
+        # иначе GIF обрезает их по размеру первого кадра
+        frames = [imageio.imread(image_path) for image_path in images]
+        height = max((f.shape[0] for f in frames), default=0)
+        width = max((f.shape[1] for f in frames), default=0)
         with imageio.get_writer(output_path, mode='I', fps=fps) as writer:
-            for image_path in images:
-                image = imageio.imread(image_path)
-                writer.append_data(image)
+            for image in frames:
+                padded = np.full((height, width) + image.shape[2:], 255, dtype=image.dtype)
+                padded[:image.shape[0], :image.shape[1]] = image
+                writer.append_data(padded)
         
         print(f"Анимация сохранена в файл {output_path}")
 
-- 
2.43.0


From 08d5805452b1ffc4870eb494e7ecb85c1d14ea1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:16 +0000
Subject: [PATCH 35/53] fix: a well outside the grid was silently placed in
 another cell

---
 src/simulator/well.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/simulator/well.py b/src/simulator/well.py
index 5b380c0..71c6478 100644
--- a/src/simulator/well.py
+++ b/src/simulator/well.py
@@ -81,6 +81,10 @@ class WellManager:
             else:
                 raise ValueError(f"Неверный формат координат скважины: {w}")
             
+            # Иначе скважина молча оказалась бы в чужой ячейке
+            if not all(0 <= v < n for v, n in zip((i, j, k), reservoir.dimensions)):
+                raise ValueError(f"Скважина вне сетки {list(reservoir.dimensions)}: {w}")
+            
             # Поддержка как старого формата (control), так и нового формата (control_type, control_value)
             if 'control' in w:
                 control_type = w['control']['type']
-- 
2.43.0


From 3e2be18bfe9883b9a9c47582edb096a279068b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:19 +0000
Subject: [PATCH 36/53] fix: wells of an unknown type or control were accepted
 and ignored

---
 src/simulator/well.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/simulator/well.py b/src/simulator/well.py
index 71c6478..b555394 100644
--- a/src/simulator/well.py
+++ b/src/simulator/well.py
@@ -95,6 +95,9 @@ class WellManager:
             else:
                 raise ValueError(f"Неверный формат управления скважиной: {w}")
             
+            if control_type not in ('rate', 'bhp') or w['type'] not in ('injector', 'producer'):
+                raise ValueError(f"Неизвестный тип скважины или управления: {w}")
+            
             # Горизонтальная проницаемость ячейки скважины
             k_x, k_y, _ = reservoir.permeability_tensors
             i_c, j_c, k_c = (min(v, n - 1) for v, n in zip((i, j, k), reservoir.dimensions))
-- 
2.43.0


From 8218f82fd3e790fad9b1244430e8a5f62ecab3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:34 +0000
Subject: [PATCH 37/53] fix: negative initial saturations were accepted

---
 src/simulator/fluid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/simulator/fluid.py b/src/simulator/fluid.py
index ff90465..049e651 100644
--- a/src/simulator/fluid.py
+++ b/src/simulator/fluid.py
@@ -83,6 +83,8 @@ class Fluid:
         # Проверка корректности насыщенностей
         if (self.s_w + self.s_g).max() > 1.0:
             raise ValueError("Сумма начальных водо- и газонасыщенностей не может превышать 1.0")
+        if min(self.s_w.min(), self.s_g.min()) < 0.0:
+            raise ValueError("Начальные насыщенности не могут быть отрицательными")
         
         self.prev_pressure = self.pressure.clone()
         self.prev_sw = self.s_w.clone()
-- 
2.43.0


From f0ea70b0dfebc127c75844b083ca58a9412fd981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:04 +0000
Subject: [PATCH 38/53] fix: a run with save_vtk never wrote a VTK file

---
 src/simulator/simulation.py | 44 +++++++------------------------------
 1 file changed, 8 insertions(+), 36 deletions(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index 8d11846..8685b53 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -2164,7 +2164,8 @@ class Simulator:
         # Сохранение результатов в VTK (если указано)
         if save_vtk:
             try:
-                self._save_to_vtk(output_filename)
+                # Имя задаётся относительно каталога results
+                self._save_to_vtk(os.path.join(os.path.basename(results_dir), output_filename))
             except ImportError:
                 print("Не удалось сохранить в формате VTK: отсутствуют необходимые модули.")
         
@@ -2182,43 +2183,14 @@ class Simulator:
         Сохраняет результаты в формате VTK.
         
         Args:
-            output_filename: Имя файла для сохранения
+            output_filename: Путь к файлу без расширения относительно каталога results
         """
         try:
-            import vtk
-            from vtkmodules.util import numpy_support
-            # Создаем VTK-объекты
-            grid = vtk.vtkStructuredGrid()
-            
-            nx, ny, nz = self.reservoir.dimensions
-            grid.SetDimensions(nx, ny, nz)
-            
-            # Создаем точки сетки
-            points = vtk.vtkPoints()
-            for k in range(nz):
-                for j in range(ny):
-                    for i in range(nx):
-                        points.InsertNextPoint(i, j, k)
-            grid.SetPoints(points)
-            
-            # Добавляем данные давления
-            pressure_array = self.fluid.pressure.cpu().numpy().flatten()
-            vtk_pressure = numpy_support.numpy_to_vtk(pressure_array)
-            vtk_pressure.SetName("Pressure")
-            grid.GetPointData().AddArray(vtk_pressure)
-            
-            # Добавляем данные насыщенности
-            sw_array = self.fluid.s_w.cpu().numpy().flatten()
-            vtk_sw = numpy_support.numpy_to_vtk(sw_array)
-            vtk_sw.SetName("Water_Saturation")
-            grid.GetPointData().AddArray(vtk_sw)
-            
-            # Записываем в файл
-            writer = vtk.vtkXMLStructuredGridWriter()
-            writer.SetFileName(os.path.join(results_dir, f"{output_filename}.vts"))
-            writer.SetInputData(grid)
-            writer.Write()
-            
+            try:
+                from ..output.vtk_writer import save_to_vtk
+            except ImportError:
+                from output.vtk_writer import save_to_vtk
+            save_to_vtk(self.reservoir, self.fluid, output_filename)
             print(f"Результаты сохранены в формате VTK.")
         except ImportError:
             print("Не удалось сохранить в формате VTK: отсутствуют необходимые модули.")
-- 
2.43.0


From 9d736e460fe175114ad1e469154ab5d49d2c7342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:05 +0000
Subject: [PATCH 39/53] fix: fully implicit steps with wells crashed under
 Stone II

---
 src/simulator/fluid.py      | 5 +++--
 src/simulator/simulation.py | 8 +++++---
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/simulator/fluid.py b/src/simulator/fluid.py
index 049e651..a075bf3 100644
--- a/src/simulator/fluid.py
+++ b/src/simulator/fluid.py
@@ -472,12 +472,13 @@ class Fluid:
         
         return result
 
-    def calc_dkro_dsw(self, s_w):
+    def calc_dkro_dsw(self, s_w, s_g=None):
         """
         Вычисляет производную относительной проницаемости нефти по водонасыщенности.
         
         Args:
             s_w: Тензор водонасыщенности
+            s_g: Тензор газонасыщенности (для Stone II)
             
         Returns:
             Тензор производной относительной проницаемости нефти
@@ -491,7 +492,7 @@ class Fluid:
         # Производная dkro/dsw = dkro/ds_norm * ds_norm/dsw
         result = torch.zeros_like(s_w)
         if self.relperm_model == 'stone2':
-            mask = mask & (self.calc_oil_kr(s_w) > 0)
+            mask = mask & (self.calc_oil_kr(s_w, s_g) > 0)
         ko_end, n_o = self._oil_water_curve()
         result[mask] = -ko_end * n_o * (1 - s_norm[mask])**(n_o - 1) / normalized_range
         
diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index 8685b53..26e1b55 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -685,12 +685,13 @@ class Simulator:
             idx = well.cell_index_flat
             p = self.fluid.pressure.reshape(-1)[idx]
             sw = self.fluid.s_w.reshape(-1)[idx]
+            sg = self.fluid.s_g.reshape(-1)[idx]
             
             # Вычисляем подвижности
             mu_w = self.fluid.mu_water
             mu_o = self.fluid.mu_oil
             kr_w = self.fluid.calc_water_kr(sw)
-            kr_o = self.fluid.calc_oil_kr(sw)
+            kr_o = self.fluid.calc_oil_kr(sw, sg)
             lambda_w = kr_w / mu_w
             lambda_o = kr_o / mu_o
             lambda_t = lambda_w + lambda_o
@@ -1945,19 +1946,20 @@ class Simulator:
             idx = well.cell_index_flat
             p = self.fluid.pressure.reshape(-1)[idx]
             sw = self.fluid.s_w.reshape(-1)[idx]
+            sg = self.fluid.s_g.reshape(-1)[idx]
             
             # Вычисляем подвижности в ячейке со скважиной
             mu_w = self.fluid.mu_water
             mu_o = self.fluid.mu_oil
             kr_w = self.fluid.calc_water_kr(sw)
-            kr_o = self.fluid.calc_oil_kr(sw)
+            kr_o = self.fluid.calc_oil_kr(sw, sg)
             lambda_w = kr_w / mu_w
             lambda_o = kr_o / mu_o
             lambda_t = lambda_w + lambda_o
             
             # Вычисляем производные подвижностей
             dkr_w_dsw = self.fluid.calc_dkrw_dsw(sw)
-            dkr_o_dsw = self.fluid.calc_dkro_dsw(sw)
+            dkr_o_dsw = self.fluid.calc_dkro_dsw(sw, sg)
             dlambda_w_dsw = dkr_w_dsw / mu_w
             dlambda_o_dsw = dkr_o_dsw / mu_o
             
-- 
2.43.0


From 3f25919a049e645f275bfdbe986e6acbc417a7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:07 +0000
Subject: [PATCH 40/53] fix: a fully implicit step with flow against the Y axis
 crashed

---
 src/simulator/simulation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index 26e1b55..f67a96d 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -1823,6 +1823,7 @@ class Simulator:
                         
                     else:
                         dfw_dsw2 = trans * dlambda_w_dsw[idx2] * (dp - dp_cap + gravity_term_w)
+                        dfo_dsw2 = trans * dlambda_o_dsw[idx2] * (dp + gravity_term_o)
                         
                         if self.fluid.pc_scale > 0:
                             dfw_dsw1 = trans * lambda_w_up * (-dpc_dsw[idx1])
-- 
2.43.0


From 0729cfc6772b854f903f212f0b169b6802f01908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:09 +0000
Subject: [PATCH 41/53] fix: do not add an AMG level that does not shrink
 (orphans and anchor lifting every node)

---
 src/solver/classical_amg.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/solver/classical_amg.py b/src/solver/classical_amg.py
index 365cafa..c79be3c 100644
--- a/src/solver/classical_amg.py
+++ b/src/solver/classical_amg.py
@@ -832,7 +832,17 @@ class ClassicalAMG:
             if self.anchor_idx is not None and self.anchor_idx < n:
                 cf_marker[self.anchor_idx] = 0
             
-            if n_coarse >= n * 0.9:
+            coarsening_failed = n_coarse >= n * 0.9
+            if not coarsening_failed:
+                # Prolongation: RS-интерполяция с F–F коррекцией (P·1=1)
+                blend = self.nullspace_blend if basis_current is not None else 0.0
+                P, cf_marker, fine2coarse_map, coarse_nodes, F_nodes = build_prolongation_rs_full(
+                    A_current, cf_marker, strong_mask, basis_current, blend=blend, ls_reg=self.nullspace_reg
+                )
+                # Orphan-узлы и anchor могут поднять в C все оставшиеся узлы
+                coarsening_failed = P.size(1) >= n
+
+            if coarsening_failed:
                 # Слишком мало coarsening
                 diag_abs = self._extract_diag(A_current).abs()
                 row_abs = self._row_abs_sum(A_current)
@@ -857,11 +867,6 @@ class ClassicalAMG:
                 print(f"[ClassicalAMG] L{lvl}: n={n}, coarsening failed (ratio={n/n_coarse:.1f}x), stopping")
                 break
             
-            # Prolongation: RS-интерполяция с F–F коррекцией (P·1=1)
-            blend = self.nullspace_blend if basis_current is not None else 0.0
-            P, cf_marker, fine2coarse_map, coarse_nodes, F_nodes = build_prolongation_rs_full(
-                A_current, cf_marker, strong_mask, basis_current, blend=blend, ls_reg=self.nullspace_reg
-            )
             stage_after_prol = time.perf_counter()
             print(f"[ClassicalAMG] L{lvl} timings: prolongation={stage_after_prol - stage_after_cf:.3f}s")
             if P.device != self.device:
-- 
2.43.0


From 6622ba7c86dda7cd21ddea210176a75dfdb81fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:02 +0000
Subject: [PATCH 42/53] fix: draw X along the horizontal and Y along the
 vertical axis as captioned

---
 src/plotting/plotter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/plotting/plotter.py b/src/plotting/plotter.py
index 8b80b98..9d805a1 100644
--- a/src/plotting/plotter.py
+++ b/src/plotting/plotter.py
@@ -47,7 +47,7 @@ class Plotter:
             title_suffix = f" ({time_info}, Срез Z={z_slice_idx})"
 
         # График давления
-        im1 = ax1.imshow(p_slice / 1e6, cmap='jet', origin='lower', aspect='auto')
+        im1 = ax1.imshow((p_slice / 1e6).T, cmap='jet', origin='lower', aspect='auto')
         ax1.set_title(f'Давление (МПа){title_suffix}')
         ax1.set_xlabel('Ячейка X')
         ax1.set_ylabel('Ячейка Y')
@@ -59,7 +59,7 @@ class Plotter:
         if abs(vmax_w - vmin_w) < 1e-4:
             vmin_w = max(0.0, vmin_w - 0.05)
             vmax_w = min(1.0, vmax_w + 0.05)
-        im2 = ax2.imshow(sw_slice, cmap='viridis', origin='lower', vmin=vmin_w, vmax=vmax_w, aspect='auto')
+        im2 = ax2.imshow(sw_slice.T, cmap='viridis', origin='lower', vmin=vmin_w, vmax=vmax_w, aspect='auto')
         ax2.set_title(f'Насыщенность водой{title_suffix}')
         ax2.set_xlabel('Ячейка X')
         ax2.set_ylabel('Ячейка Y')
@@ -72,7 +72,7 @@ class Plotter:
             if abs(vmax_g - vmin_g) < 1e-4:
                 vmin_g = max(0.0, vmin_g - 0.05)
                 vmax_g = min(1.0, vmax_g + 0.05)
-            im3 = ax3.imshow(sg_slice, cmap='plasma', origin='lower', vmin=vmin_g, vmax=vmax_g, aspect='auto')
+            im3 = ax3.imshow(sg_slice.T, cmap='plasma', origin='lower', vmin=vmin_g, vmax=vmax_g, aspect='auto')
             ax3.set_title(f'Насыщенность газом{title_suffix}')
             ax3.set_xlabel('Ячейка X')
             ax3.set_ylabel('Ячейка Y')
-- 
2.43.0


From 5da536a8ca1b1fac4e0fd303fd1e0e65a971994a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:06 +0000
Subject: [PATCH 43/53] fix: order PVT table rows by pressure before
 interpolating

---
 src/simulator/pvt.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/simulator/pvt.py b/src/simulator/pvt.py
index e92e9dc..8ea225d 100644
--- a/src/simulator/pvt.py
+++ b/src/simulator/pvt.py
@@ -45,6 +45,11 @@ class PVTTable:
         if len(self.Rv) != n:
             raise ValueError("PVT: длины столбцов не совпадают (pressure vs Rv_m3m3)")
 
+        # np.interp требует возрастающих узлов: упорядочиваем строки по давлению
+        order = np.argsort(self.P, kind="stable")
+        for name in ("P", "Bo", "Bw", "Bg", "mu_o", "mu_w", "mu_g", "Rs", "Rv"):
+            setattr(self, name, getattr(self, name)[order])
+
     def _interp(self, x: np.ndarray, xp: np.ndarray, fp: np.ndarray) -> np.ndarray:
         # Линейная интерполяция с экстраполяцией по краям
         return np.interp(x, xp, fp, left=fp[0], right=fp[-1])
-- 
2.43.0


From f97a5a42bb7a16fcb5b9964b468ba719bf20e127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:10 +0000
Subject: [PATCH 44/53] fix: let the newton_* options of the configuration take
 effect

---
 src/simulator/simulation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index f67a96d..f02c33a 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -199,9 +199,9 @@ class Simulator:
         print("Не удалось добиться сходимости даже с минимальным шагом. Симуляция остановлена.")
         return False
         
-    def _fully_implicit_newton_step(self, dt, max_iter=20, tol=1e-3, 
-                                    damping_factor=0.7, jac_reg=1e-7, 
-                                    line_search_factors=None, use_cuda=False):
+    def _fully_implicit_newton_step(self, dt, max_iter=None, tol=None,
+                                    damping_factor=None, jac_reg=None,
+                                    line_search_factors=None, use_cuda=None):
         """
         Выполняет один шаг метода Ньютона для полностью неявной схемы.
         Максимально оптимизированная реализация с улучшенным методом line search.
-- 
2.43.0


From d00d1872523e413e621f862f047e78fd1499ed55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:20 +0000
Subject: [PATCH 45/53] fix: judge the last Newton iterate by its own residual

---
 src/simulator/simulation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index f02c33a..aac32fe 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -491,6 +491,8 @@ class Simulator:
         
         # Если достигнуто максимальное число итераций
         print(f"  Метод Ньютона не сошелся за {max_iter} итераций")
+        # Невязка состояния после последнего обновления (а не до него)
+        residual_norm = torch.norm(self._compute_residual_fast(dt, nx, ny, nz, dx, dy, dz)).item()
         if residual_norm < 20 * tol:
             print(f"  Невязка достаточно близка к допустимой, принимаем результат")
             return True, max_iter
-- 
2.43.0


From 8c974f8e6f399016181cf4000b4f537f359cc2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:46 +0000
Subject: [PATCH 46/53] fix: animate pictures of different sizes

---
 src/utils.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/utils.py b/src/utils.py
index 62439ca..19cdc07 100644
--- a/src/utils.py
+++ b/src/utils.py
@@ -1,6 +1,7 @@
 import os
 import re
 import imageio
+import numpy as np
 
 
 def create_animation(image_folder, output_path, fps=5):
@@ -41,7 +42,16 @@ def create_animation(image_folder, output_path, fps=5):
     for _, filepath in file_tuples:
         images.append(imageio.imread(filepath))
 
+    # Кадры разного размера (например, с графиком газа и без него) дополняем белым до общего
+    height = max(image.shape[0] for image in images)
+    width = max(image.shape[1] for image in images)
+    frames = []
+    for image in images:
+        frame = np.full((height, width) + image.shape[2:], 255, dtype=image.dtype)
+        frame[:image.shape[0], :image.shape[1]] = image
+        frames.append(frame)
+
     # Сохраняем GIF
     # Используем fps, переданный из конфига
-    imageio.mimsave(output_path, images, fps=fps)
+    imageio.mimsave(output_path, frames, fps=fps)
     print(f"Анимация успешно сохранена в {output_path}") 
\ No newline at end of file
-- 
2.43.0


From a1c77ba1aae6359b30dd16446b05ae5db0d7dd59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:48 +0000
Subject: [PATCH 47/53] fix: give every run its own results directory

---
 src/simulator/simulation.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index aac32fe..0326036 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -2061,7 +2061,15 @@ class Simulator:
         # Создаем уникальную директорию для данного запуска
         timestamp = datetime.datetime.now().strftime("%Y%m%d_%H%M%S")
         results_dir = os.path.join("results", f"{output_filename}_{timestamp}")
-        os.makedirs(results_dir, exist_ok=True)
+        suffix = 1
+        while True:
+            try:
+                os.makedirs(results_dir)
+                break
+            except FileExistsError:
+                # Каталог занят другим запуском, начатым в ту же секунду
+                suffix += 1
+                results_dir = os.path.join("results", f"{output_filename}_{timestamp}_{suffix}")
         
         intermediate_results_dir = os.path.join(results_dir, "intermediate")
         if save_interval < num_steps:
-- 
2.43.0


From b904d45ec58c9d059548e4cabfcfc7933ce13690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:54 +0000
Subject: [PATCH 48/53] fix: caption the final picture of a stopped run with
 the day it reached

---
 src/simulator/simulation.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index 0326036..92f68c8 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -2083,6 +2083,7 @@ class Simulator:
         plotter = Plotter(self.reservoir)
         
         # Основной цикл симуляции
+        final_day = total_time_days
         for i in tqdm(range(num_steps), desc="Симуляция"):
             # Выполняем один шаг
             success = self.run_step(dt=time_step_sec)
@@ -2095,10 +2096,12 @@ class Simulator:
                 
                 if not success:
                     print(f"  Шаг {i+1} не сошелся даже с уменьшенным шагом. Завершаем симуляцию.")
+                    final_day = i * time_step_days
                     break
             elif not success:
                 # IMPES сам перебирает уменьшенные шаги: дальше продолжать нечем
                 print(f"  Шаг {i+1} не сошелся. Завершаем симуляцию.")
+                final_day = i * time_step_days
                 break
             
             # Сохранение промежуточных результатов
@@ -2171,7 +2174,7 @@ class Simulator:
         
         # Сохранение финальных графиков
         final_plot_path = os.path.join(results_dir, f"{output_filename}_final.png")
-        plotter.save_plots(p_final, sw_final, final_plot_path, time_info=f"День {total_time_days} (Final)", gas_saturation=sg_final)
+        plotter.save_plots(p_final, sw_final, final_plot_path, time_info=f"День {final_day} (Final)", gas_saturation=sg_final)
         print(f"Финальные графики сохранены в файл {final_plot_path}")
         
         # Сохранение результатов в VTK (если указано)
-- 
2.43.0


From f8fd8383d8edf805c5beb230454ad6a3c1fa8d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:48 +0000
Subject: [PATCH 49/53] fix: pass the tolerance of the fallback sparse solver
 by its current name

---
 src/simulator/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index 92f68c8..d9ca800 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -374,7 +374,7 @@ class Simulator:
                         delta = torch.from_numpy(delta_np).to(device)
                     except Exception:
                         # Если прямой метод не работает, используем итеративный
-                        delta_np, info = bicgstab(jacobian_sparse, -residual_np, tol=1e-6, maxiter=1000)
+                        delta_np, info = bicgstab(jacobian_sparse, -residual_np, rtol=1e-6, maxiter=1000)
                         if info != 0:
                             print(f"  Предупреждение: Итеративный решатель не сошелся (код {info})")
                         delta = torch.from_numpy(delta_np).to(device)
-- 
2.43.0


From 10d1ef4add128f3e7281318d6c9706cf141dfa4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:55 +0000
Subject: [PATCH 50/53] fix: accept whole numbers for initial saturations and
 porosity

---
 src/simulator/fluid.py     | 4 ++--
 src/simulator/reservoir.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/simulator/fluid.py b/src/simulator/fluid.py
index a075bf3..118c306 100644
--- a/src/simulator/fluid.py
+++ b/src/simulator/fluid.py
@@ -24,8 +24,8 @@ class Fluid:
         
         # Начальные значения
         initial_pressure = config.get('pressure', 20.0) * 1e6  # МПа -> Па
-        initial_sw = config.get('s_w', 0.2)
-        initial_sg = config.get('s_g', 0.0)  # Начальная газонасыщенность (по умолчанию 0)
+        initial_sw = float(config.get('s_w', 0.2))
+        initial_sg = float(config.get('s_g', 0.0))  # Начальная газонасыщенность (по умолчанию 0)
         
         # Свойства флюидов (базовые, если нет PVT)
         self.mu_oil = config.get('mu_oil', 1.0) * 1e-3  # сП -> Па*с
diff --git a/src/simulator/reservoir.py b/src/simulator/reservoir.py
index d64f1b4..c842a22 100644
--- a/src/simulator/reservoir.py
+++ b/src/simulator/reservoir.py
@@ -23,7 +23,7 @@ class Reservoir:
         self.dx, self.dy, self.dz = self.grid_size
         
         # Пористость (может быть скаляром или массивом)
-        porosity_value = config.get('porosity', 0.2)
+        porosity_value = float(config.get('porosity', 0.2))
         self.porosity = torch.full(self.dimensions, porosity_value, device=self.device)
         
         # Проницаемость
-- 
2.43.0


From 9cac813870a8b722880655a30693338990750578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:12 +0000
Subject: [PATCH 51/53] fix: give every simulator its own component log, also
 without a directory

---
 src/simulator/simulation.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index d9ca800..19e33a0 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -103,7 +103,12 @@ class Simulator:
             ts = datetime.datetime.now().strftime('%Y%m%d_%H%M%S')
             default_path = os.path.join('results', f'component_debug_{ts}.log')
             self.debug_log_path = sim_params.get('debug_log_path', default_path)
-            os.makedirs(os.path.dirname(self.debug_log_path), exist_ok=True)
+            os.makedirs(os.path.dirname(self.debug_log_path) or '.', exist_ok=True)
+            suffix = 1
+            while 'debug_log_path' not in sim_params and os.path.exists(self.debug_log_path):
+                # Журнал занят симулятором, созданным в ту же секунду
+                suffix += 1
+                self.debug_log_path = os.path.join('results', f'component_debug_{ts}_{suffix}.log')
             with open(self.debug_log_path, 'w') as f:
                 f.write('# Component balance debug log\n')
                 f.write(f'# started {ts}\n')
-- 
2.43.0


From 35edf93713a98a75fdb498d7b6d7056ea4d5cf69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:17 +0000
Subject: [PATCH 52/53] fix: log gas injected at bottom-hole pressure and name
 the side of crossflow

---
 src/simulator/simulation.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index 19e33a0..7af7459 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -1323,6 +1323,10 @@ class Simulator:
                             side = 'out' if q_total > 0 else 'in'  # приток в нагнетательную скважину
                             self.component_balance['gas'][side] += float(qg_surf * scale)
                             self.component_balance['oil'][side] += float(Rv_cell * qg_surf * scale)
+                            self._dbg(
+                                f"WELL_{side.upper()} name={well.name} mode=inj_gas_bhp cell=({i},{j},{k}) q_total={q_total:.6e}",
+                                f"Bg={Bg_cell:.4g} Rv={Rv_cell:.4g} qg_surf={qg_surf:.6e} oil_{side}+= {Rv_cell*qg_surf*scale:.6e} gas_{side}+= {qg_surf*scale:.6e}"
+                            )
                     else:
                         q_w[i, j, k] += (-q_total)
                 else:
@@ -1359,9 +1363,9 @@ class Simulator:
                         self.component_balance['oil'][side] += float(oil_delta)
                         self.component_balance['gas'][side] += float(gas_delta)
                         self._dbg(
-                            f"WELL_OUT name={well.name} mode=bhp cell=({i},{j},{k}) q_total={q_total:.6e} fw={fw_:.3f} fg={fg_:.3f} fo={fo_:.3f}",
+                            f"WELL_{side.upper()} name={well.name} mode=bhp cell=({i},{j},{k}) q_total={q_total:.6e} fw={fw_:.3f} fg={fg_:.3f} fo={fo_:.3f}",
                             f"Bo={Bo_cell:.4g} Bw={Bw_cell:.4g} Bg={Bg_cell:.4g} Rs={Rs_cell:.4g} Rv={Rv_cell:.4g}",
-                            f"oil_out+= {oil_delta:.6e} gas_out+= {gas_delta:.6e}"
+                            f"oil_{side}+= {oil_delta:.6e} gas_{side}+= {gas_delta:.6e}"
                         )
 
         # Агрегированный баланс масс будет посчитан после применения dS и обновления насыщенностей ниже
-- 
2.43.0


From e8239a0186061c7f04cff3ed5004c65270a3cc75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:29 +0000
Subject: [PATCH 53/53] fix: caption frames at the end of a whole day with that
 day, not the one before

---
 src/simulator/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index 7af7459..9e3d64f 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -2119,7 +2119,7 @@ class Simulator:
                 sw_current = self.fluid.s_w.cpu().numpy()
                 sg_current = self.fluid.s_g.cpu().numpy()
                 
-                time_info = f"День {int((i + 1) * time_step_days)}"
+                time_info = f"День {int((i + 1) * time_step_days + 1e-9)}"
                 filename = f"{output_filename}_step_{i+1}.png"
                 filepath = os.path.join(intermediate_results_dir, filename)
                 
-- 
2.43.0

