From 9b5fedf28bc28a07bce61bfb3365610a870eb6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:10 +0000
Subject: [PATCH 01/23] fix: use cleaned-up intensity if cleanup_summations is
 requested

---
 src/ampform_dpd/__init__.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/ampform_dpd/__init__.py b/src/ampform_dpd/__init__.py
index e848bd2..a5b0c12 100644
--- a/src/ampform_dpd/__init__.py
+++ b/src/ampform_dpd/__init__.py
@@ -149,10 +149,7 @@ class DalitzPlotDecompositionBuilder:
             intensity = intensity.cleanup()  # type:ignore[assignment]
         return AmplitudeModel(
             decay=self.decay,
-            intensity=PoolSum(
-                sp.Abs(aligned_amp) ** 2,
-                *allowed_helicities.items(),
-            ),
+            intensity=intensity,
             amplitudes=amplitude_definitions,
             variables=angle_definitions,
             parameter_defaults=parameter_defaults,
-- 
2.43.0


From 73c6be22a86947e774e3e483285bbc1e501aa298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:10 +0000
Subject: [PATCH 02/23] fix: do not share parameters between a
 DefinedExpression and its product

---
 src/ampform_dpd/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ampform_dpd/__init__.py b/src/ampform_dpd/__init__.py
index a5b0c12..947d0e2 100644
--- a/src/ampform_dpd/__init__.py
+++ b/src/ampform_dpd/__init__.py
@@ -496,7 +496,7 @@ class DefinedExpression:
             )
         return DefinedExpression(
             expression=self.expression * other,
-            parameters=self.parameters,
+            parameters={**self.parameters},
         )
 
 
-- 
2.43.0


From 39b57c33773dd372e9d52ca22d32b5d62f73f8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:03 +0000
Subject: [PATCH 03/23] fix: reject half-integer mismatches in
 generate_ls_couplings

---
 src/ampform_dpd/spin.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ampform_dpd/spin.py b/src/ampform_dpd/spin.py
index 8e1ba1e..1b0a698 100644
--- a/src/ampform_dpd/spin.py
+++ b/src/ampform_dpd/spin.py
@@ -31,6 +31,7 @@ def generate_ls_couplings(
         for L in angular_momenta
         for S in coupled_spins
         if abs(L - S) <= parent_spin <= L + S
+        if float(L + S - parent_spin).is_integer()
     }
     return sorted(ls_couplings)
 
-- 
2.43.0


From f86d5c2173fbcaf8a57f62e139f7a4b792a69a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:03 +0000
Subject: [PATCH 04/23] fix: apply dynamics to the decay chain for which they
 were registered

---
 src/ampform_dpd/__init__.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ampform_dpd/__init__.py b/src/ampform_dpd/__init__.py
index 947d0e2..090d829 100644
--- a/src/ampform_dpd/__init__.py
+++ b/src/ampform_dpd/__init__.py
@@ -181,7 +181,7 @@ class DalitzPlotDecompositionBuilder:
         terms = []
         parameter_defaults: dict[sp.Basic, complex] = {}
         for chain in self.decay.get_subsystem(subsystem_id).chains:
-            formulate_dynamics = self.dynamics_choices.get_builder(chain.resonance.name)
+            formulate_dynamics = self.dynamics_choices.get_builder(chain)
             dynamics = formulate_dynamics(chain)
             parameter_defaults.update(dynamics.parameters)
             resonance_spin = sp.Rational(chain.resonance.spin)
@@ -450,7 +450,12 @@ class DynamicsConfigurator:
 
     def register_builder(self, identifier, builder: DynamicsBuilder) -> None:
         chain = self.__get_chain(identifier)
-        self.__dynamics_builders[chain] = builder
+        if isinstance(identifier, str):
+            for chain in self.__decay.chains:
+                if chain.resonance.name == identifier:
+                    self.__dynamics_builders[chain] = builder
+        else:
+            self.__dynamics_builders[chain] = builder
 
     def get_builder(self, identifier) -> DynamicsBuilder:
         chain = self.__get_chain(identifier)
-- 
2.43.0


From 70025d606977d3dc18e3eb892229e8b4f37cf87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:03 +0000
Subject: [PATCH 05/23] fix: convert particles without parity from qrules

---
 src/ampform_dpd/adapter/qrules.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ampform_dpd/adapter/qrules.py b/src/ampform_dpd/adapter/qrules.py
index 519f879..7c34406 100644
--- a/src/ampform_dpd/adapter/qrules.py
+++ b/src/ampform_dpd/adapter/qrules.py
@@ -143,7 +143,7 @@ def _to_particle(
         name=particle.name,
         latex=particle.name if particle.latex is None else particle.latex,
         spin=particle.spin,
-        parity=int(particle.parity),  # type:ignore[arg-type]
+        parity=None if particle.parity is None else int(particle.parity),  # type:ignore[arg-type]
         mass=particle.mass,
         width=particle.width,
     )
@@ -164,7 +164,7 @@ def _to_state(obj: Any, index: StateIDTemplate | None = None):
         name=obj.name,
         latex=obj.name if obj.latex is None else obj.latex,  # pyright:ignore[reportUnnecessaryComparison]
         spin=obj.spin,
-        parity=int(obj.parity),  # type:ignore[arg-type]
+        parity=None if obj.parity is None else int(obj.parity),  # type:ignore[arg-type]
         mass=obj.mass,
         width=obj.width,
         index=index,
-- 
2.43.0


From 4cfc0f9a303df17d2ab6eb180bff6f791ab9c8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:03 +0000
Subject: [PATCH 06/23] fix: round instead of truncate masses and widths in
 tables

---
 src/ampform_dpd/io/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ampform_dpd/io/__init__.py b/src/ampform_dpd/io/__init__.py
index a9b57e0..7bc7d02 100644
--- a/src/ampform_dpd/io/__init__.py
+++ b/src/ampform_dpd/io/__init__.py
@@ -172,8 +172,8 @@ def _as_resonance_markdown_table(items: Sequence[Particle | State]) -> str:
             f"`{particle.name}`",
             f"${particle.latex}$",
             Rf"${aslatex(particle, only_jp=True)}$",  # type:ignore[call-arg]
-            f"{int(1e3 * particle.mass):,.0f}",
-            f"{int(1e3 * particle.width):,.0f}",
+            f"{1e3 * particle.mass:,.0f}",
+            f"{1e3 * particle.width:,.0f}",
         ]
         if render_index:
             row_items.insert(0, particle.index if isinstance(particle, State) else " ")
@@ -198,8 +198,8 @@ def _as_decay_markdown_table(decay_chains: Sequence[ThreeBodyDecayChain]) -> str
         row_items: list = [
             Rf"${chain.resonance.latex} \to {child1} {child2}$",
             Rf"${aslatex(chain.resonance, only_jp=True)}$",  # type:ignore[call-arg]
-            f"{int(1e3 * chain.resonance.mass):,.0f}",
-            f"{int(1e3 * chain.resonance.width):,.0f}",
+            f"{1e3 * chain.resonance.mass:,.0f}",
+            f"{1e3 * chain.resonance.width:,.0f}",
         ]
         if chain.outgoing_ls is not None:
             row_items.append(chain.outgoing_ls.L)
-- 
2.43.0


From c6e1ba6e91351478f62729a5bd60bc22d88759c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:03 +0000
Subject: [PATCH 07/23] fix: keep table cells aligned if only some chains have
 LS couplings

---
 src/ampform_dpd/io/__init__.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/ampform_dpd/io/__init__.py b/src/ampform_dpd/io/__init__.py
index 7bc7d02..a1e0833 100644
--- a/src/ampform_dpd/io/__init__.py
+++ b/src/ampform_dpd/io/__init__.py
@@ -188,9 +188,11 @@ def _as_decay_markdown_table(decay_chains: Sequence[ThreeBodyDecayChain]) -> str
         R"mass (MeV)",
         R"width (MeV)",
     ]
-    if any(c.outgoing_ls is not None for c in decay_chains):
+    render_decay_ls = any(c.outgoing_ls is not None for c in decay_chains)
+    if render_decay_ls:
         column_names.append(R"$L_\mathrm{dec}^\mathrm{min}$")
-    if any(c.incoming_ls is not None for c in decay_chains):
+    render_production_ls = any(c.incoming_ls is not None for c in decay_chains)
+    if render_production_ls:
         column_names.append(R"$L_\mathrm{prod}^\mathrm{min}$")
     src = _create_markdown_table_header(column_names)
     for chain in decay_chains:
@@ -201,10 +203,10 @@ def _as_decay_markdown_table(decay_chains: Sequence[ThreeBodyDecayChain]) -> str
             f"{1e3 * chain.resonance.mass:,.0f}",
             f"{1e3 * chain.resonance.width:,.0f}",
         ]
-        if chain.outgoing_ls is not None:
-            row_items.append(chain.outgoing_ls.L)
-        if chain.incoming_ls is not None:
-            row_items.append(chain.incoming_ls.L)
+        if render_decay_ls:
+            row_items.append(" " if chain.outgoing_ls is None else chain.outgoing_ls.L)
+        if render_production_ls:
+            row_items.append(" " if chain.incoming_ls is None else chain.incoming_ls.L)
         src += _create_markdown_table_row(row_items)
     return src
 
-- 
2.43.0


From f88c2f592694a5d476b9c5646db87c9fd8ed5214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:26 +0000
Subject: [PATCH 08/23] fix: identify production and decay node by ID instead
 of by dict order

---
 src/ampform_dpd/adapter/qrules.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ampform_dpd/adapter/qrules.py b/src/ampform_dpd/adapter/qrules.py
index 7c34406..c0377c0 100644
--- a/src/ampform_dpd/adapter/qrules.py
+++ b/src/ampform_dpd/adapter/qrules.py
@@ -93,7 +93,7 @@ def _to_decay_chain(
     spectator_id, resonance_id = sorted(topology.get_edge_ids_outgoing_from_node(0))
     child1_id, child2_id = sorted(topology.get_edge_ids_outgoing_from_node(1))
     resonance_id, *_ = sorted(topology.get_edge_ids_ingoing_to_node(1))
-    production_node, decay_node = transition.interactions.values()
+    production_node, decay_node = transition.interactions[0], transition.interactions[1]
     return ThreeBodyDecayChain(
         decay=IsobarNode(
             parent=parent,
@@ -218,7 +218,7 @@ def filter_min_ls(
             _get_decay_product_ids(transition.topology, resonance_id),
             tuple(
                 node
-                for i, node in transition.interactions.items()
+                for i, node in sorted(transition.interactions.items())
                 if node and i not in node_ids
             ),
         )
-- 
2.43.0


From 3931346e95105964e58169125e78aa6c0f2ace7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:26 +0000
Subject: [PATCH 09/23] fix: do not lose transitions if filter_min_ls gets a
 generator

---
 src/ampform_dpd/adapter/qrules.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ampform_dpd/adapter/qrules.py b/src/ampform_dpd/adapter/qrules.py
index c0377c0..bd39767 100644
--- a/src/ampform_dpd/adapter/qrules.py
+++ b/src/ampform_dpd/adapter/qrules.py
@@ -191,6 +191,7 @@ def filter_min_ls(
     transitions: Iterable[FrozenTransition[EdgeType, NodeType]],
     node_ids: set[int] | None = None,
 ) -> tuple[FrozenTransition[EdgeType, NodeType], ...]:
+    transitions = tuple(transitions)
     available_node_ids = {i for t in transitions for i in t.interactions}
     if available_node_ids != {0, 1}:
         msg = (
-- 
2.43.0


From 32652eb049d1f4639e3a98e11a10d7f4a31da2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:39 +0000
Subject: [PATCH 10/23] fix: evaluate serialized chains for the actual
 helicities

---
 src/ampform_dpd/io/serialization/amplitude.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/ampform_dpd/io/serialization/amplitude.py b/src/ampform_dpd/io/serialization/amplitude.py
index 8aad442..b64a1db 100644
--- a/src/ampform_dpd/io/serialization/amplitude.py
+++ b/src/ampform_dpd/io/serialization/amplitude.py
@@ -132,24 +132,30 @@ def formulate_chain_amplitude(  # noqa: PLR0914, PLR0917
     # -----------------------
     weight, weight_val = _get_weight(chain_definition, to_latex)
     # -----------------------
-    (i, λi_val), (j, λj_val) = _get_decay_product_helicities(chain_definition)
+    (i, _), (j, _) = _get_decay_product_helicities(chain_definition)
     θij, θij_expr = formulate_scattering_angle(i, j)
     jR = sp.Rational(chain_definition["propagators"][0]["spin"])  # noqa: N806
-    R_node, λR_val = _get_resonance_helicity(chain_definition)  # noqa: N806
+    R_node, _ = _get_resonance_helicity(chain_definition)  # noqa: N806
     λR = _get_helicity_symbol(R_node)
     # -----------------------
     A = _generate_amplitude_index_bases()
     subsystem_id = get_spectator_id(chain_definition["topology"])
     h_prod = formulate_recoupling(model, chain_idx, vertex_idx=0)
     h_dec = formulate_recoupling(model, chain_idx, vertex_idx=1)
-    amplitude_expression = (
+    λ_init, λi, λj, λk = map(_get_helicity_symbol, (0, i, j, subsystem_id))
+    amplitude_expression = PoolSum(
         weight
+        * δ(λ_init, λR - λk)
         * h_prod
         * h_dec
-        * Wigner.d(jR, λR, λi_val - λj_val, θij)
-        * dynamics.expression
+        * Wigner.d(jR, λR, λi - λj, θij)
+        * dynamics.expression,
+        (λR, create_spin_range(jR)),
+    )
+    helicity_symbols = map(_get_helicity_symbol, range(4))
+    amplitude_expression = amplitude_expression.xreplace(
+        dict(zip(helicity_symbols, map(sp.sympify, (λ0, λ1, λ2, λ3)), strict=True))
     )
-    amplitude_expression = amplitude_expression.subs({λR: λR_val})
     amplitude_symbol = A[subsystem_id][λ0, λ1, λ2, λ3]
     return {
         amplitude_symbol: amplitude_expression,
-- 
2.43.0


From 2ead897eebaae702c9532c7aa26bf1a01e34b2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:39 +0000
Subject: [PATCH 11/23] fix: get final state spin for serialized LS vertices

---
 src/ampform_dpd/io/serialization/amplitude.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ampform_dpd/io/serialization/amplitude.py b/src/ampform_dpd/io/serialization/amplitude.py
index b64a1db..e0fe820 100644
--- a/src/ampform_dpd/io/serialization/amplitude.py
+++ b/src/ampform_dpd/io/serialization/amplitude.py
@@ -335,7 +335,7 @@ def _get_child_spins(
     spins = []
     for node_item in node:
         if isinstance(node_item, int):
-            spins.append(sp.Rational(final_state[node_item]))
+            spins.append(final_state[node_item].spin)
         else:
             spins.append(__get_propagator_spin(chain_definition))
     return tuple(spins)
-- 
2.43.0


From f26b81bb2752bb983f96469561489d2dbf000a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:39 +0000
Subject: [PATCH 12/23] fix: evaluate serialized production form factors at the
 right kinematics

---
 src/ampform_dpd/io/serialization/dynamics.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/ampform_dpd/io/serialization/dynamics.py b/src/ampform_dpd/io/serialization/dynamics.py
index cbf1fcf..5ba3f3a 100644
--- a/src/ampform_dpd/io/serialization/dynamics.py
+++ b/src/ampform_dpd/io/serialization/dynamics.py
@@ -79,11 +79,18 @@ def formulate_form_factor(vertex: Vertex, model: ModelDefinition) -> DefinedExpr
     function_type = function_definition["type"]
     if function_type == "BlattWeisskopf":
         node = vertex["node"]
-        s = to_mandelstam_symbol(node)
-        m1, m2 = (to_mass_symbol(i) for i in node)
         if all(isinstance(i, int) for i in node):
+            s = to_mandelstam_symbol(node)
+            m1, m2 = (to_mass_symbol(i) for i in node)
             meson_radius = sp.Symbol(R"R_\mathrm{res}", nonnegative=True)
         else:
+            s = to_mandelstam_symbol(node) ** 2
+            m1, m2 = (
+                to_mass_symbol(i)
+                if isinstance(i, int)
+                else sp.sqrt(to_mandelstam_symbol(i))
+                for i in node
+            )
             initial_state = get_initial_state(model)
             meson_radius = sp.Symbol(f"R_{{{initial_state.latex}}}", nonnegative=True)
         angular_momentum = int(function_definition["l"])
-- 
2.43.0


From 43399ec57dcf4972c1f9a185a399271371690f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:41 +0000
Subject: [PATCH 13/23] fix: give every serialized radius and channel mass its
 own parameter

---
 src/ampform_dpd/io/serialization/dynamics.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/ampform_dpd/io/serialization/dynamics.py b/src/ampform_dpd/io/serialization/dynamics.py
index 5ba3f3a..f380d61 100644
--- a/src/ampform_dpd/io/serialization/dynamics.py
+++ b/src/ampform_dpd/io/serialization/dynamics.py
@@ -8,7 +8,6 @@ from ampform.dynamics.form_factor import FormFactor
 
 from ampform_dpd import DefinedExpression
 from ampform_dpd.dynamics import BreitWigner, ChannelArguments, MultichannelBreitWigner
-from ampform_dpd.io.serialization.decay import get_initial_state
 from ampform_dpd.io.serialization.format import (
     BlattWeisskopfDefinition,
     BreitWignerDefinition,
@@ -82,7 +81,6 @@ def formulate_form_factor(vertex: Vertex, model: ModelDefinition) -> DefinedExpr
         if all(isinstance(i, int) for i in node):
             s = to_mandelstam_symbol(node)
             m1, m2 = (to_mass_symbol(i) for i in node)
-            meson_radius = sp.Symbol(R"R_\mathrm{res}", nonnegative=True)
         else:
             s = to_mandelstam_symbol(node) ** 2
             m1, m2 = (
@@ -91,8 +89,8 @@ def formulate_form_factor(vertex: Vertex, model: ModelDefinition) -> DefinedExpr
                 else sp.sqrt(to_mandelstam_symbol(i))
                 for i in node
             )
-            initial_state = get_initial_state(model)
-            meson_radius = sp.Symbol(f"R_{{{initial_state.latex}}}", nonnegative=True)
+        function_latex = function_name.replace("_", R"\_")
+        meson_radius = sp.Symbol(Rf"R_\text{{{function_latex}}}", nonnegative=True)
         angular_momentum = int(function_definition["l"])
         return DefinedExpression(
             expression=FormFactor(s, m1, m2, angular_momentum, meson_radius),
@@ -117,7 +115,7 @@ def formulate_breit_wigner(
     m1 = to_mass_symbol(i)
     m2 = to_mass_symbol(j)
     angular_momentum = int(function_definition["l"])
-    d = sp.Symbol(R"R_\mathrm{res}", nonnegative=True)
+    d = sp.Symbol(f"R_{{{resonance}}}", nonnegative=True)
     return DefinedExpression(
         expression=BreitWigner(s, mass, width, m1, m2, angular_momentum, d),
         parameters={
@@ -160,14 +158,17 @@ def formulate_multichannel_breit_wigner(  # noqa: PLR0914
         Γi = sp.Symbol(
             Rf"\Gamma_{{{resonance}}}^\text{{ch. {channel_idx}}}", nonnegative=True
         )
-        mi1 = sp.Symbol(f"m_{{a,{channel_idx}}}", nonnegative=True)
-        mi2 = sp.Symbol(f"m_{{b,{channel_idx}}}", nonnegative=True)
+        channel = Rf"^\text{{ch. {channel_idx}}}"
+        mi1 = sp.Symbol(f"m_{{a,{resonance}}}{channel}", nonnegative=True)
+        mi2 = sp.Symbol(f"m_{{b,{resonance}}}{channel}", nonnegative=True)
+        di = sp.Symbol(f"R_{{{resonance}}}{channel}", nonnegative=True)
         angular_momentum = int(channel_definition["l"])
-        channels.append(ChannelArguments(s, mass, Γi, mi1, mi2, angular_momentum, d))
+        channels.append(ChannelArguments(s, mass, Γi, mi1, mi2, angular_momentum, di))
         parameter_defaults.update({
             mi1: channel_definition["ma"],
             mi2: channel_definition["mb"],
             Γi: channel_definition["gsq"],
+            di: channel_definition["d"],
         })
     return DefinedExpression(
         expression=MultichannelBreitWigner(s, mass, tuple(channels)),
-- 
2.43.0


From 2c3663c2dfaec45a22caaf074a576b38b2465d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:15 +0000
Subject: [PATCH 14/23] fix: give serialized chains with the same name and
 helicities separate weights

---
 src/ampform_dpd/io/serialization/amplitude.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/ampform_dpd/io/serialization/amplitude.py b/src/ampform_dpd/io/serialization/amplitude.py
index e0fe820..9614240 100644
--- a/src/ampform_dpd/io/serialization/amplitude.py
+++ b/src/ampform_dpd/io/serialization/amplitude.py
@@ -131,6 +131,12 @@ def formulate_chain_amplitude(  # noqa: PLR0914, PLR0917
         dynamics *= formulate_form_factor(vertex, model)
     # -----------------------
     weight, weight_val = _get_weight(chain_definition, to_latex)
+    if any(
+        _is_same_weight(chain_definition, other_definition)
+        for idx, other_definition in enumerate(chain_defs)
+        if idx != chain_idx
+    ):
+        weight = sp.Symbol(f"{weight.name[:-1]}; {chain_idx}}}")
     # -----------------------
     (i, _), (j, _) = _get_decay_product_helicities(chain_definition)
     θij, θij_expr = formulate_scattering_angle(i, j)
@@ -230,6 +236,14 @@ def _get_weight(
     return symbol, value
 
 
+def _is_same_weight(chain1: DecayChain, chain2: DecayChain) -> bool:
+    if chain1["name"] != chain2["name"]:
+        return False
+    if any("helicities" not in v for v in chain2["vertices"]):
+        return False
+    return _get_weight(chain1)[0] == _get_weight(chain2)[0]
+
+
 def _get_resonance_helicity(
     chain_definition: DecayChain,
 ) -> tuple[tuple[FinalStateID, FinalStateID], sp.Rational]:
-- 
2.43.0


From 1a18a938836069358b3f751e9bcae3e6b51811a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:48 +0000
Subject: [PATCH 15/23] fix: keep declared masses of serialized Breit-Wigner
 channels

---
 src/ampform_dpd/io/serialization/dynamics.py | 28 ++++++++++++++------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/ampform_dpd/io/serialization/dynamics.py b/src/ampform_dpd/io/serialization/dynamics.py
index f380d61..ced20d6 100644
--- a/src/ampform_dpd/io/serialization/dynamics.py
+++ b/src/ampform_dpd/io/serialization/dynamics.py
@@ -8,6 +8,7 @@ from ampform.dynamics.form_factor import FormFactor
 
 from ampform_dpd import DefinedExpression
 from ampform_dpd.dynamics import BreitWigner, ChannelArguments, MultichannelBreitWigner
+from ampform_dpd.io.serialization.decay import get_final_state
 from ampform_dpd.io.serialization.format import (
     BlattWeisskopfDefinition,
     BreitWignerDefinition,
@@ -22,6 +23,7 @@ from ampform_dpd.io.serialization.format import (
 if TYPE_CHECKING:
     from collections.abc import Callable
 
+    from ampform_dpd.decay import FinalStateID
     from ampform_dpd.io.serialization.format import Node
 
 T = TypeVar("T")
@@ -112,8 +114,9 @@ def formulate_breit_wigner(
     s = to_mandelstam_symbol(node)
     mass = sp.Symbol(f"m_{{{resonance}}}", nonnegative=True)
     width = sp.Symbol(Rf"\Gamma_{{{resonance}}}", nonnegative=True)
-    m1 = to_mass_symbol(i)
-    m2 = to_mass_symbol(j)
+    ma, mb = function_definition["ma"], function_definition["mb"]
+    m1 = _to_child_mass_symbol(i, ma, f"a,{resonance}", model)
+    m2 = _to_child_mass_symbol(j, mb, f"b,{resonance}", model)
     angular_momentum = int(function_definition["l"])
     d = sp.Symbol(f"R_{{{resonance}}}", nonnegative=True)
     return DefinedExpression(
@@ -121,8 +124,8 @@ def formulate_breit_wigner(
         parameters={
             mass: function_definition["mass"],
             width: function_definition["width"],
-            m1: function_definition["ma"],
-            m2: function_definition["mb"],
+            m1: ma,
+            m2: mb,
             d: function_definition["d"],
         },
     )
@@ -142,16 +145,17 @@ def formulate_multichannel_breit_wigner(  # noqa: PLR0914
     s = to_mandelstam_symbol(node)
     mass = sp.Symbol(f"m_{{{resonance}}}", nonnegative=True)
     width = sp.Symbol(Rf"\Gamma_{{{resonance}}}", nonnegative=True)
-    m1 = to_mass_symbol(i)
-    m2 = to_mass_symbol(j)
+    ma, mb = channel_definitions[0]["ma"], channel_definitions[0]["mb"]
+    m1 = _to_child_mass_symbol(i, ma, f"a,{resonance}", model)
+    m2 = _to_child_mass_symbol(j, mb, f"b,{resonance}", model)
     angular_momentum = int(channel_definitions[0]["l"])
     d = sp.Symbol(f"R_{{{resonance}}}", nonnegative=True)
     channels = [ChannelArguments(s, mass, width, m1, m2, angular_momentum, d)]
     parameter_defaults: dict[sp.Symbol, complex | float] = {
         mass: function_definition["mass"],
         width: channel_definitions[0]["gsq"],
-        m1: channel_definitions[0]["ma"],
-        m2: channel_definitions[0]["mb"],
+        m1: ma,
+        m2: mb,
         d: channel_definitions[0]["d"],
     }
     for channel_idx, channel_definition in enumerate(channel_definitions[1:], 2):
@@ -176,6 +180,14 @@ def formulate_multichannel_breit_wigner(  # noqa: PLR0914
     )
 
 
+def _to_child_mass_symbol(
+    state_id: FinalStateID, declared_mass: float, subscript: str, model: ModelDefinition
+) -> sp.Symbol:
+    if declared_mass == get_final_state(model)[state_id].mass:
+        return to_mass_symbol(state_id)
+    return sp.Symbol(f"m_{{{subscript}}}", nonnegative=True)
+
+
 def to_mandelstam_symbol(node: Node) -> sp.Symbol:
     """Create a Mandelstam symbol for a node.
 
-- 
2.43.0


From a4ac10e8addd5a067a2b3f0cced6837783d11bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:17 +0000
Subject: [PATCH 16/23] fix: separate parameters of serialized resonances with
 several parametrizations

---
 src/ampform_dpd/io/serialization/dynamics.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/ampform_dpd/io/serialization/dynamics.py b/src/ampform_dpd/io/serialization/dynamics.py
index ced20d6..c4e2082 100644
--- a/src/ampform_dpd/io/serialization/dynamics.py
+++ b/src/ampform_dpd/io/serialization/dynamics.py
@@ -17,6 +17,7 @@ from ampform_dpd.io.serialization.format import (
     MultichannelBreitWignerDefinition,
     Propagator,
     Vertex,
+    get_decay_chains,
     get_function_definition,
 )
 
@@ -55,8 +56,17 @@ def formulate_dynamics(
     if additional_definitions is not None:
         definitions.update(additional_definitions)
     expr = DefinedExpression()
+    parametrizations = {
+        propagator["parametrization"]
+        for chain in get_decay_chains(model)
+        for propagator in chain["propagators"]
+        if chain["name"] == chain_definition["name"]
+    }
     for propagator in chain_definition["propagators"]:
         parametrization = propagator["parametrization"]
+        resonance = to_latex(chain_definition["name"])
+        if len(parametrizations) > 1:
+            resonance += f",{_to_text_latex(parametrization)}"
         function_definition = get_function_definition(parametrization, model)
         function_type = function_definition["type"]
         dynamics_builder = definitions.get(function_type)
@@ -65,7 +75,7 @@ def formulate_dynamics(
             raise NotImplementedError(msg)
         expr *= dynamics_builder(
             propagator,
-            resonance=to_latex(chain_definition["name"]),
+            resonance=resonance,
             model=model,
         )
     return expr
@@ -91,8 +101,7 @@ def formulate_form_factor(vertex: Vertex, model: ModelDefinition) -> DefinedExpr
                 else sp.sqrt(to_mandelstam_symbol(i))
                 for i in node
             )
-        function_latex = function_name.replace("_", R"\_")
-        meson_radius = sp.Symbol(Rf"R_\text{{{function_latex}}}", nonnegative=True)
+        meson_radius = sp.Symbol(f"R_{_to_text_latex(function_name)}", nonnegative=True)
         angular_momentum = int(function_definition["l"])
         return DefinedExpression(
             expression=FormFactor(s, m1, m2, angular_momentum, meson_radius),
@@ -180,6 +189,10 @@ def formulate_multichannel_breit_wigner(  # noqa: PLR0914
     )
 
 
+def _to_text_latex(name: str) -> str:
+    return Rf"\text{{{name}}}".replace("_", R"\_")
+
+
 def _to_child_mass_symbol(
     state_id: FinalStateID, declared_mass: float, subscript: str, model: ModelDefinition
 ) -> sp.Symbol:
-- 
2.43.0


From 959ea0a2e0ede1f8b271ffb6e8d02a13fafe55bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:12 +0000
Subject: [PATCH 17/23] fix: do not share mutable parametrized functions
 between lambdify calls

---
 src/ampform_dpd/io/cached.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/ampform_dpd/io/cached.py b/src/ampform_dpd/io/cached.py
index 057c21a..50f035b 100644
--- a/src/ampform_dpd/io/cached.py
+++ b/src/ampform_dpd/io/cached.py
@@ -9,16 +9,14 @@ import cloudpickle
 from ampform.sympy._cache import cache_to_disk  # noqa: PLC2701
 from ampform.sympy.cached import doit, simplify, subs, trigsimp, unfold, xreplace
 from frozendict import frozendict
+from tensorwaves.function import ParametrizedBackendFunction
 from tensorwaves.function.sympy import create_function, create_parametrized_function
 
 if TYPE_CHECKING:
     from collections.abc import Mapping
 
     import sympy as sp
-    from tensorwaves.function import (
-        ParametrizedBackendFunction,
-        PositionalArgumentFunction,
-    )
+    from tensorwaves.function import PositionalArgumentFunction
     from tensorwaves.interface import Function, ParameterValue, ParametrizedFunction
 
 __all__ = [
@@ -73,7 +71,13 @@ def lambdify(
         jax.config.update("jax_enable_x64", True)
     if parameters is None:
         return _lambdify_impl(expr, backend=backend)
-    return _lambdify_impl(expr, frozendict(parameters), backend=backend)
+    cached = _lambdify_impl(expr, frozendict(parameters), backend=backend)
+    # The cached instance is mutable and its key does not distinguish e.g. 1 and 1.0
+    return ParametrizedBackendFunction(
+        cached.function,
+        cached.argument_order,
+        parameters={symbol.name: value for symbol, value in parameters.items()},
+    )
 
 
 @cache
-- 
2.43.0


From f0de81cad6030da2f576bf668a28df4de28d9e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:57 +0000
Subject: [PATCH 18/23] fix: recover from cache files of interrupted lambdify
 calls

---
 src/ampform_dpd/io/cached.py | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/ampform_dpd/io/cached.py b/src/ampform_dpd/io/cached.py
index 50f035b..c3fc133 100644
--- a/src/ampform_dpd/io/cached.py
+++ b/src/ampform_dpd/io/cached.py
@@ -2,7 +2,9 @@
 
 from __future__ import annotations
 
+import pickle  # noqa: S403
 from functools import cache
+from pathlib import Path
 from typing import TYPE_CHECKING, overload
 
 import cloudpickle
@@ -14,6 +16,7 @@ from tensorwaves.function.sympy import create_function, create_parametrized_func
 
 if TYPE_CHECKING:
     from collections.abc import Mapping
+    from io import BufferedReader
 
     import sympy as sp
     from tensorwaves.function import PositionalArgumentFunction
@@ -70,8 +73,8 @@ def lambdify(
 
         jax.config.update("jax_enable_x64", True)
     if parameters is None:
-        return _lambdify_impl(expr, backend=backend)
-    cached = _lambdify_impl(expr, frozendict(parameters), backend=backend)
+        return _lambdify_with_retry(expr, backend=backend)
+    cached = _lambdify_with_retry(expr, frozendict(parameters), backend=backend)
     # The cached instance is mutable and its key does not distinguish e.g. 1 and 1.0
     return ParametrizedBackendFunction(
         cached.function,
@@ -80,9 +83,26 @@ def lambdify(
     )
 
 
+def _lambdify_with_retry(*args, backend: str):
+    try:
+        return _lambdify_impl(*args, backend=backend)
+    except (EOFError, pickle.UnpicklingError):
+        # The cache file was incomplete and has been removed by _load_or_remove()
+        return _lambdify_impl(*args, backend=backend)
+
+
+def _load_or_remove(f: BufferedReader):
+    try:
+        return pickle.load(f)  # noqa: S301
+    except (EOFError, pickle.UnpicklingError):
+        Path(f.name).unlink(missing_ok=True)
+        raise
+
+
 @cache
 @cache_to_disk(
     dump_function=cloudpickle.dump,
+    load_function=_load_or_remove,
     function_name="lambdify",
     dependencies=["cloudpickle", "ampform", "jax", "sympy"],
 )
-- 
2.43.0


From e91c864e1f1078e8d378a374c486e6072db77cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:35 +0000
Subject: [PATCH 19/23] fix: refuse transitions with different outer states
 before filtering LS couplings

---
 src/ampform_dpd/adapter/qrules.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/ampform_dpd/adapter/qrules.py b/src/ampform_dpd/adapter/qrules.py
index bd39767..68d91d9 100644
--- a/src/ampform_dpd/adapter/qrules.py
+++ b/src/ampform_dpd/adapter/qrules.py
@@ -50,6 +50,14 @@ def to_three_body_decay(
         transitions = normalize_state_ids(transitions)
         _LOGGER.warning("Relabeled initial state to 0 and final states to 1, 2, 3")
     transitions = convert_transitions(transitions)
+    some_transition = transitions[0]
+    if any(
+        t.initial_states != some_transition.initial_states
+        or t.final_states != some_transition.final_states
+        for t in transitions
+    ):
+        msg = "Transitions need to have the same initial and final states"
+        raise ValueError(msg)
     if min_ls:
         if isinstance(min_ls, bool):
             node_ids = None
@@ -61,7 +69,6 @@ def to_three_body_decay(
             if decay_min_ls:
                 node_ids.add(1)
         transitions = filter_min_ls(transitions, node_ids)
-    some_transition = transitions[0]
     (initial_state_id, initial_state), *_ = some_transition.initial_states.items()
     outer_states = (
         _to_state(initial_state, index=initial_state_id),  # type:ignore[type-var]
-- 
2.43.0


From bc7473881a7baf41fc0027bcaced89ccbe345883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:44 +0000
Subject: [PATCH 20/23] fix: refuse decays in which the ID of a state differs
 from its index

---
 src/ampform_dpd/decay.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ampform_dpd/decay.py b/src/ampform_dpd/decay.py
index 57b4729..8881b4c 100644
--- a/src/ampform_dpd/decay.py
+++ b/src/ampform_dpd/decay.py
@@ -74,6 +74,10 @@ class ThreeBodyDecay:
     chains: tuple[ThreeBodyDecayChain, ...] = field(converter=to_chains)
 
     def __attrs_post_init__(self) -> None:
+        for state_id, state in self.states.items():
+            if state.index != state_id:
+                msg = f"State {state.name} with index {state.index} has ID {state_id}"
+                raise ValueError(msg)
         expected_initial_state = self.initial_state
         expected_final_state = set(self.final_state.values())
         for i, chain in enumerate(self.chains):
-- 
2.43.0


From a07adfe9e506275d7200d975e09812f9296408a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:15 +0000
Subject: [PATCH 21/23] fix: tolerate concurrent readers and writers of a
 lambdify cache file

---
 src/ampform_dpd/io/cached.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/ampform_dpd/io/cached.py b/src/ampform_dpd/io/cached.py
index c3fc133..2a1e9dd 100644
--- a/src/ampform_dpd/io/cached.py
+++ b/src/ampform_dpd/io/cached.py
@@ -2,6 +2,7 @@
 
 from __future__ import annotations
 
+import inspect
 import pickle  # noqa: S403
 from functools import cache
 from pathlib import Path
@@ -84,11 +85,14 @@ def lambdify(
 
 
 def _lambdify_with_retry(*args, backend: str):
-    try:
-        return _lambdify_impl(*args, backend=backend)
-    except (EOFError, pickle.UnpicklingError):
-        # The cache file was incomplete and has been removed by _load_or_remove()
-        return _lambdify_impl(*args, backend=backend)
+    for _ in range(2):
+        try:
+            return _lambdify_impl(*args, backend=backend)
+        except (EOFError, FileNotFoundError, pickle.UnpicklingError):
+            # The cache file was incomplete and has been removed by _load_or_remove()
+            continue
+    # Other processes are still writing or removing the cache file
+    return inspect.unwrap(_lambdify_impl)(*args, backend=backend)
 
 
 def _load_or_remove(f: BufferedReader):
-- 
2.43.0


From 8bcb4265587fb75697ecbba67f5d5c89933c9bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:57 +0000
Subject: [PATCH 22/23] fix: render arguments of channels instead of failing on
 their LaTeX

---
 src/ampform_dpd/dynamics/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ampform_dpd/dynamics/__init__.py b/src/ampform_dpd/dynamics/__init__.py
index 18b94d0..1597ea7 100644
--- a/src/ampform_dpd/dynamics/__init__.py
+++ b/src/ampform_dpd/dynamics/__init__.py
@@ -156,7 +156,7 @@ class ChannelArguments(sp.Expr):
     m2: Any = 0
     angular_momentum: Any = 0
     meson_radius: Any = 1
-    _latex_repr_ = R"\Gamma^\text{channel}\left({{s}}, {{m0}}, {{width}}\right)"
+    _latex_repr_ = R"\Gamma^\text{{channel}}\left({s}, {m0}, {width}\right)"
 
     def evaluate(self) -> sp.Expr:
         s, m0, Γ0, m1, m2, L, R = self.args
-- 
2.43.0


From 32fd9335dfded678c10986bc5522ed166d951fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:57 +0000
Subject: [PATCH 23/23] fix: render LS recouplings as such instead of as parity
 recouplings

---
 src/ampform_dpd/io/serialization/amplitude.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ampform_dpd/io/serialization/amplitude.py b/src/ampform_dpd/io/serialization/amplitude.py
index 9614240..760a2f6 100644
--- a/src/ampform_dpd/io/serialization/amplitude.py
+++ b/src/ampform_dpd/io/serialization/amplitude.py
@@ -415,7 +415,7 @@ class LSRecoupling(sp.Expr):
     jb: Any
     j: Any
     _latex_repr_ = (
-        R"\mathcal{{H}}^\text{{parity}}\left({λa},{λb}|{l},{s},{ja},{jb},{j}\right)"
+        R"\mathcal{{H}}^\text{{LS}}\left({λa},{λb}|{l},{s},{ja},{jb},{j}\right)"
     )
 
     def evaluate(self) -> sp.Expr:
-- 
2.43.0

