From 5cd1d4bf55c20dcdb634263d4a279804cb028aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:28 +0000
Subject: [PATCH 01/30] fix: close the process group when setting up the
 distributed environment fails

An exception while creating the nested subgroups left the default process
group open, because the clean-up only covered the body of the context manager.
---
 artist/util/env.py | 40 ++++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/artist/util/env.py b/artist/util/env.py
index d21b399..40c5a82 100644
--- a/artist/util/env.py
+++ b/artist/util/env.py
@@ -185,28 +185,28 @@ def setup_distributed_environment(
     """
     device, is_distributed, rank, world_size = initialize_ddp_environment(device=device)
 
-    groups_to_ranks_mapping, is_nested = distribute_groups_among_ranks(
-        world_size=world_size, number_of_heliostat_groups=number_of_heliostat_groups
-    )
-    if is_nested:
-        (
-            heliostat_group_rank,
-            heliostat_group_world_size,
-            process_subgroup,
-            ranks_to_groups_mapping,
-        ) = create_subgroups_for_nested_ddp(
-            rank=rank, groups_to_ranks_mapping=groups_to_ranks_mapping
+    try:
+        groups_to_ranks_mapping, is_nested = distribute_groups_among_ranks(
+            world_size=world_size, number_of_heliostat_groups=number_of_heliostat_groups
         )
-    else:
-        heliostat_group_rank = 0
-        heliostat_group_world_size = 1
-        process_subgroup = None
-        ranks_to_groups_mapping = defaultdict(list)
-        for single_rank, groups in groups_to_ranks_mapping.items():
-            for group in groups:
-                ranks_to_groups_mapping[group].append(single_rank)
+        if is_nested:
+            (
+                heliostat_group_rank,
+                heliostat_group_world_size,
+                process_subgroup,
+                ranks_to_groups_mapping,
+            ) = create_subgroups_for_nested_ddp(
+                rank=rank, groups_to_ranks_mapping=groups_to_ranks_mapping
+            )
+        else:
+            heliostat_group_rank = 0
+            heliostat_group_world_size = 1
+            process_subgroup = None
+            ranks_to_groups_mapping = defaultdict(list)
+            for single_rank, groups in groups_to_ranks_mapping.items():
+                for group in groups:
+                    ranks_to_groups_mapping[group].append(single_rank)
 
-    try:
         yield DdpSetup(
             device=device,
             is_distributed=is_distributed,
-- 
2.43.0


From a9eeb76051f1039da3311d6768e1eaf576fb2e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:34 +0000
Subject: [PATCH 02/30] fix: return only locally traced samples from
 distributed ray tracing

Ranks returned uninitialized rows for samples owned by other ranks, although
all callers treat the rows as the samples listed by get_sampler_indices. The
indices of an idle rank are now integers as well, so they can be used to index.
---
 artist/optim/surface_reconstructor.py     | 16 ++++++++++------
 artist/raytracing/heliostat_ray_tracer.py | 21 +++++++++++++++------
 2 files changed, 25 insertions(+), 12 deletions(-)

diff --git a/artist/optim/surface_reconstructor.py b/artist/optim/surface_reconstructor.py
index 75b1e2c..beb34c4 100644
--- a/artist/optim/surface_reconstructor.py
+++ b/artist/optim/surface_reconstructor.py
@@ -254,15 +254,17 @@ class SurfaceReconstructor:
             device=device,
         )
 
+        indices_for_local_rank = ray_tracer.get_sampler_indices()
+
         cropped_flux_distributions = bitmap.crop_flux_distributions_around_center(
             flux_distributions=flux_prediction,
             solar_tower=self.scenario.solar_tower,
-            target_area_indices=data_split.target_area_indices_test,
+            target_area_indices=data_split.target_area_indices_test[
+                indices_for_local_rank
+            ],
             device=device,
         )
 
-        indices_for_local_rank = ray_tracer.get_sampler_indices()
-
         loss_pixel_per_sample = self.validation_loss_pixel(
             prediction=cropped_flux_distributions,
             ground_truth=data_split.flux_measured_test[indices_for_local_rank],
@@ -574,15 +576,17 @@ class SurfaceReconstructor:
             device=device,
         )
 
+        sample_indices_for_local_rank = ray_tracer.get_sampler_indices()
+
         # Crop predictions around center before comparing to measurements.
         cropped_flux_predictions = bitmap.crop_flux_distributions_around_center(
             flux_distributions=flux_prediction_train,
             solar_tower=self.scenario.solar_tower,
-            target_area_indices=data_split.target_area_indices_train,
+            target_area_indices=data_split.target_area_indices_train[
+                sample_indices_for_local_rank
+            ],
             device=device,
         )
-
-        sample_indices_for_local_rank = ray_tracer.get_sampler_indices()
         local_indices = (
             sample_indices_for_local_rank[:: data_split.number_of_train_samples]
             // data_split.number_of_train_samples
diff --git a/artist/raytracing/heliostat_ray_tracer.py b/artist/raytracing/heliostat_ray_tracer.py
index 273eb55..c436763 100644
--- a/artist/raytracing/heliostat_ray_tracer.py
+++ b/artist/raytracing/heliostat_ray_tracer.py
@@ -214,6 +214,7 @@ class HeliostatRayTracer:
         """
         return torch.tensor(
             self.distortions_sampler.rank_indices,
+            dtype=torch.long,
             device=self.distortions_dataset.distortions_u.device,
         )
 
@@ -264,17 +265,18 @@ class HeliostatRayTracer:
         Returns
         -------
         torch.Tensor
-            The resulting bitmaps per heliostat.
-            Shape is ``[number_of_active_heliostats, bitmap_resolution_e, bitmap_resolution_u]``.
+            The resulting bitmaps per heliostat, one for each sample assigned to this rank in the order given by
+            ``get_sampler_indices``. Without distributed ray tracing these are all active heliostats.
+            Shape is ``[number_of_local_samples, bitmap_resolution_e, bitmap_resolution_u]``.
         torch.Tensor
             The fraction of rays hitting the target, neglecting blocking effects.
-            Shape is ``[number_of_active_heliostats]``.
+            Shape is ``[number_of_local_samples]``.
         torch.Tensor
             The fraction of rays not being blocked.
-            Shape is ``[number_of_active_heliostats]``.
+            Shape is ``[number_of_local_samples]``.
         torch.Tensor
             The fraction of rays actually hitting the target, taking into account blocking effects.
-            Shape is ``[number_of_active_heliostats]``.
+            Shape is ``[number_of_local_samples]``.
         """
         device = get_device(device=device)
 
@@ -505,7 +507,14 @@ class HeliostatRayTracer:
                 (1, 2)
             ) / number_of_rays_per_heliostat
 
-        return flux_distributions, intercept_factor, on_target_factor, blocking_factor
+        # Only the samples assigned to this rank have been traced.
+        local_indices = self.get_sampler_indices()
+        return (
+            flux_distributions[local_indices],
+            intercept_factor[local_indices],
+            on_target_factor[local_indices],
+            blocking_factor[local_indices],
+        )
 
     def scatter_rays(
         self,
-- 
2.43.0


From 8ee8fb257d1bcc2e9bc1ba7ef36898403966d929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:54 +0000
Subject: [PATCH 03/30] fix: trace every sample if active heliostats have
 different sample counts

The sampler dropped the remainder of samples / heliostats, so the last samples
were never traced and their bitmaps stayed uninitialized.
---
 artist/raytracing/sampling.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/artist/raytracing/sampling.py b/artist/raytracing/sampling.py
index c165ef3..42df13b 100644
--- a/artist/raytracing/sampling.py
+++ b/artist/raytracing/sampling.py
@@ -130,15 +130,13 @@ class RestrictedDistributedSampler(Sampler):
         self.rank_indices = []
 
         if rank < number_of_active_ranks:
-            number_of_samples_per_heliostat = (
-                number_of_samples // number_of_active_heliostats
-            )
             indices: list[int] = []
 
             for index in range(number_of_active_heliostats):
                 if index % number_of_active_ranks == rank:
-                    start = index * number_of_samples_per_heliostat
-                    end = start + number_of_samples_per_heliostat
+                    # The boundaries also cover all samples if their number per heliostat is not uniform.
+                    start = index * number_of_samples // number_of_active_heliostats
+                    end = (index + 1) * number_of_samples // number_of_active_heliostats
                     indices.extend(range(start, end))
 
             self.rank_indices = indices
-- 
2.43.0


From c8e27a7f61b03d2f91304f64f431b738ee3edfda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:28 +0000
Subject: [PATCH 04/30] fix: exclude a heliostat's own blocking surface in all
 heliostat groups

The surfaces of all groups are concatenated, but rays were mapped to them by
their index within the group, so in later groups a foreign surface was skipped
instead of the own one and its shadow was lost.
---
 artist/raytracing/heliostat_ray_tracer.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/artist/raytracing/heliostat_ray_tracer.py b/artist/raytracing/heliostat_ray_tracer.py
index c436763..90a21a4 100644
--- a/artist/raytracing/heliostat_ray_tracer.py
+++ b/artist/raytracing/heliostat_ray_tracer.py
@@ -181,6 +181,12 @@ class HeliostatRayTracer:
             self.blocking_heliostat_surfaces_active = torch.cat(
                 blocking_heliostat_surfaces_active_list
             )
+            # The blocking surfaces of all groups are concatenated. Find the position of this group among them.
+            self.blocking_index_offset = 0
+            for group in self.scenario.heliostat_field.heliostat_groups:
+                if group is self.heliostat_group:
+                    break
+                self.blocking_index_offset += group.number_of_heliostats
 
         if dni is not None:
             # Calculate surface area per heliostat.
@@ -445,7 +451,10 @@ class HeliostatRayTracer:
                 device=device,
             )
             if self.blocking_active:
-                batch_global_indices = global_active_indices[batch_mask_indices]
+                batch_global_indices = (
+                    global_active_indices[batch_mask_indices]
+                    + self.blocking_index_offset
+                )
                 ray_to_heliostat_mapping = batch_global_indices.repeat_interleave(
                     number_of_rays_per_heliostat
                 )
-- 
2.43.0


From b11d5465356deb3bb7eaed3f72e2d110768beaaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:55 +0000
Subject: [PATCH 05/30] fix: base nested reconstructions on the loss of the
 whole heliostat group

Ranks sharing a group stopped, scheduled and averaged with their local mean
loss, so they diverged or waited for each other forever if one of them stopped
early, had fewer heliostats or none at all (missing gradients were skipped in
the all-reduce and cropping an empty batch failed).
---
 artist/flux/bitmap.py                    |  4 ++
 artist/optim/kinematics_reconstructor.py | 57 +++++++++++++++++++-----
 artist/optim/surface_reconstructor.py    | 55 ++++++++++++++++++-----
 3 files changed, 94 insertions(+), 22 deletions(-)

diff --git a/artist/flux/bitmap.py b/artist/flux/bitmap.py
index ce24ca9..30e6b35 100644
--- a/artist/flux/bitmap.py
+++ b/artist/flux/bitmap.py
@@ -165,6 +165,10 @@ def crop_flux_distributions_around_center(
 
     number_of_flux_distributions, image_height, image_width = flux_distributions.shape
 
+    # The affine transformation below is undefined for an empty batch, e.g., on a rank without samples.
+    if number_of_flux_distributions == 0:
+        return flux_distributions
+
     # Compute center of mass in normalized image coordinates [-1, 1].
     normalized_mass_map = flux_distributions / (
         flux_distributions.sum(
diff --git a/artist/optim/kinematics_reconstructor.py b/artist/optim/kinematics_reconstructor.py
index b47d555..2abadec 100644
--- a/artist/optim/kinematics_reconstructor.py
+++ b/artist/optim/kinematics_reconstructor.py
@@ -543,7 +543,8 @@ class KinematicsReconstructor:
         Compute the ray-tracing reconstruction loss for a single epoch.
 
         The heliostats are activated, aligned, and ray traced to predict flux distributions
-        which are compared against the measured flux.
+        which are compared against the measured flux. In nested mode, the loss is this rank's
+        share of the mean loss over all active heliostats of the group.
 
         Parameters
         ----------
@@ -617,7 +618,12 @@ class KinematicsReconstructor:
             reduction=partial(torch.median, dim=1),
         )
 
-        loss = torch.mean(loss_per_heliostat)
+        # The mean is taken over all active heliostats of the group, so that the local losses (and their gradients)
+        # of all ranks processing this group add up to the mean loss. In nested mode, each rank only covers some of them.
+        number_of_active_heliostats = (
+            data_split.active_heliostats_mask_train > 0
+        ).sum()
+        loss = loss_per_heliostat.sum() / number_of_active_heliostats
 
         return loss, loss_per_heliostat, sample_indices_for_local_rank
 
@@ -628,7 +634,8 @@ class KinematicsReconstructor:
         Synchronize gradients within a nested heliostat-group subgroup.
 
         In nested distributed data parallel mode the gradients are summed across the ranks that
-        process the same heliostat group and then averaged. This is a no-op when not nested.
+        process the same heliostat group. A rank without local samples contributes zeros.
+        This is a no-op when not nested.
 
         Parameters
         ----------
@@ -639,13 +646,39 @@ class KinematicsReconstructor:
             # Reduce gradients within each heliostat group.
             for param_group in optimizer.param_groups:
                 for param in param_group["params"]:
-                    if param.grad is not None:
-                        param.grad = torch.distributed.nn.functional.all_reduce(
-                            param.grad,
-                            op=torch.distributed.ReduceOp.SUM,
-                            group=self.ddp_setup["process_subgroup"],
-                        )
-                        param.grad /= self.ddp_setup["heliostat_group_world_size"]
+                    if param.grad is None:
+                        param.grad = torch.zeros_like(param)
+                    torch.distributed.all_reduce(
+                        param.grad,
+                        op=torch.distributed.ReduceOp.SUM,
+                        group=self.ddp_setup["process_subgroup"],
+                    )
+
+    def _synchronize_loss_nested_ddp(self, loss: torch.Tensor) -> torch.Tensor:
+        """
+        Synchronize the loss within a nested heliostat-group subgroup.
+
+        All ranks that process the same heliostat group must base the learning rate schedule and
+        the stopping criteria on the same loss. This is a no-op when not nested.
+
+        Parameters
+        ----------
+        loss : torch.Tensor
+            This rank's share of the mean loss over all active heliostats of the group.
+
+        Returns
+        -------
+        torch.Tensor
+            The mean loss over all active heliostats of the group.
+        """
+        loss = loss.detach().clone()
+        if self.ddp_setup["is_nested"]:
+            torch.distributed.all_reduce(
+                loss,
+                op=torch.distributed.ReduceOp.SUM,
+                group=self.ddp_setup["process_subgroup"],
+            )
+        return loss
 
     def _synchronize_reconstruction_across_ranks(
         self,
@@ -988,9 +1021,11 @@ class KinematicsReconstructor:
                         )
                     )
 
-                    loss.backward()
+                    if loss.requires_grad:
+                        loss.backward()
 
                     self._synchronize_gradients_nested_ddp(optimizer=optimizer)
+                    loss = self._synchronize_loss_nested_ddp(loss=loss)
 
                     optimizer.step()
                     if isinstance(
diff --git a/artist/optim/surface_reconstructor.py b/artist/optim/surface_reconstructor.py
index beb34c4..ab2b856 100644
--- a/artist/optim/surface_reconstructor.py
+++ b/artist/optim/surface_reconstructor.py
@@ -756,8 +756,8 @@ class SurfaceReconstructor:
         """
         Synchronize gradients in nested-DDP mode and lock outer-edge control points.
 
-        In nested distributed data parallel mode the gradients are averaged across the ranks
-        that process the same heliostat group. The gradients of the outer-edge control points
+        In nested distributed data parallel mode the gradients are summed across the ranks
+        that process the same heliostat group. A rank without local samples contributes zeros. The gradients of the outer-edge control points
         are then zeroed to preserve the rectangular surface shape.
 
         Parameters
@@ -772,13 +772,13 @@ class SurfaceReconstructor:
             # Reduce gradients within each heliostat group.
             for param_group in optimizer.param_groups:
                 for param in param_group["params"]:
-                    if param.grad is not None:
-                        torch.distributed.all_reduce(
-                            param.grad,
-                            op=torch.distributed.ReduceOp.SUM,
-                            group=self.ddp_setup["process_subgroup"],
-                        )
-                        param.grad /= self.ddp_setup["heliostat_group_world_size"]
+                    if param.grad is None:
+                        param.grad = torch.zeros_like(param)
+                    torch.distributed.all_reduce(
+                        param.grad,
+                        op=torch.distributed.ReduceOp.SUM,
+                        group=self.ddp_setup["process_subgroup"],
+                    )
 
         # Geometry-preserving constraint: Keep the surfaces in their original geometric shape by locking
         # the control points on the outer edges, i.e., zero/fix gradient on outer-edge control points.
@@ -791,6 +791,32 @@ class SurfaceReconstructor:
             device=device,
         )
 
+    def _synchronize_loss(self, loss: torch.Tensor) -> torch.Tensor:
+        """
+        Synchronize the loss within a nested heliostat-group subgroup.
+
+        All ranks that process the same heliostat group must base the learning rate schedule and
+        the stopping criteria on the same loss. This is a no-op when not nested.
+
+        Parameters
+        ----------
+        loss : torch.Tensor
+            This rank's share of the mean loss over all active heliostats of the group.
+
+        Returns
+        -------
+        torch.Tensor
+            The mean loss over all active heliostats of the group.
+        """
+        loss = loss.detach().clone()
+        if self.ddp_setup["is_nested"]:
+            torch.distributed.all_reduce(
+                loss,
+                op=torch.distributed.ReduceOp.SUM,
+                group=self.ddp_setup["process_subgroup"],
+            )
+        return loss
+
     def _synchronize_reconstruction_across_ranks(
         self,
         final_loss_per_heliostat: torch.Tensor,
@@ -1053,9 +1079,15 @@ class SurfaceReconstructor:
                         + beta * ideal_surface_loss_per_heliostat
                     )
 
-                    total_loss = torch.mean(total_loss_per_heliostat)
+                    # The mean is taken over all active heliostats of the group, so that the local losses (and their gradients)
+                    # of all ranks processing this group add up to the mean loss.
+                    total_loss = (
+                        total_loss_per_heliostat.sum()
+                        / (data_split.active_heliostats_mask_train > 0).sum()
+                    )
 
-                    total_loss.backward()
+                    if total_loss.requires_grad:
+                        total_loss.backward()
 
                     # Update Augmented-Lagrangian multiplier.
                     with torch.no_grad():
@@ -1068,6 +1100,7 @@ class SurfaceReconstructor:
                     self._synchronize_and_lock_gradients(
                         optimizer=optimizer, device=device
                     )
+                    total_loss = self._synchronize_loss(loss=total_loss)
 
                     optimizer.step()
                     if isinstance(
-- 
2.43.0


From acf334d272f4334446f1e6093740b990d096f0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:55 +0000
Subject: [PATCH 06/30] fix: synchronize ranks after the alignment-driven
 kinematics reconstruction

Each rank kept only the results of its own groups and returned only its own
losses and history, unlike the flux-driven reconstruction.
---
 artist/optim/kinematics_reconstructor.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/artist/optim/kinematics_reconstructor.py b/artist/optim/kinematics_reconstructor.py
index 2abadec..3e56b1f 100644
--- a/artist/optim/kinematics_reconstructor.py
+++ b/artist/optim/kinematics_reconstructor.py
@@ -909,12 +909,17 @@ class KinematicsReconstructor:
 
                 log.info(f"Rank: {rank}, Kinematics reconstructed.")
 
+        final_loss_history_all_groups = self._synchronize_reconstruction_across_ranks(
+            final_loss_per_heliostat=final_loss_per_heliostat,
+            loss_history=loss_history,
+        )
+
         for heliostat_group in self.scenario.heliostat_field.heliostat_groups:
             heliostat_group.kinematics.rotation_deviation_parameters = (
                 heliostat_group.kinematics.rotation_deviation_parameters.detach()
             )
 
-        return final_loss_per_heliostat.detach().cpu(), [loss_history]
+        return final_loss_per_heliostat.detach().cpu(), final_loss_history_all_groups
 
     def _reconstruct_kinematics_flux_driven(
         self,
-- 
2.43.0


From 02115e24a53453b9b988a87ae4acd41403ea0ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:55 +0000
Subject: [PATCH 07/30] fix: share flux, factors and gradients of all ranks in
 aim point optimization

Ranks aligned only their own groups, skipped the all-reduce of gradients of
the others (mismatched collectives) and computed constraints and return
values from their local factors only.
---
 artist/optim/aim_point_optimizer.py | 47 ++++++++++++++++++-----------
 1 file changed, 30 insertions(+), 17 deletions(-)

diff --git a/artist/optim/aim_point_optimizer.py b/artist/optim/aim_point_optimizer.py
index 7f9ad7a..1867961 100644
--- a/artist/optim/aim_point_optimizer.py
+++ b/artist/optim/aim_point_optimizer.py
@@ -356,9 +356,10 @@ class AimPointOptimizer:
         device: torch.device,
     ) -> None:
         """
-        Align all heliostat groups on this rank from the reparameterized motor positions.
+        Align all heliostat groups from the reparameterized motor positions.
 
-        The true motor positions are reconstructed from the ``tanh``-reparameterized parameters.
+        The true motor positions are reconstructed from the ``tanh``-reparameterized parameters. Each rank aligns
+        all groups (not only the ones it traces), as the heliostats of all groups block rays.
 
         Parameters
         ----------
@@ -373,13 +374,9 @@ class AimPointOptimizer:
         device : torch.device
             The device on which to perform computations or load tensors and models.
         """
-        rank = self.ddp_setup["rank"]
-
-        for heliostat_group_index in self.ddp_setup["groups_to_ranks_mapping"][rank]:
-            heliostat_alignment_group: HeliostatGroup = (
-                self.scenario.heliostat_field.heliostat_groups[heliostat_group_index]
-            )
-
+        for heliostat_group_index, heliostat_alignment_group in enumerate(
+            self.scenario.heliostat_field.heliostat_groups
+        ):
             # Reconstruct true motor positions from reparameterized version.
             motor_positions_normalized = torch.tanh(
                 optimizer.param_groups[indices.optimizer_param_group_0]["params"][
@@ -513,10 +510,24 @@ class AimPointOptimizer:
             blocking_factors[global_indices] = blocking_factor
 
         if self.ddp_setup["is_distributed"]:
-            total_flux = torch.distributed.nn.functional.all_reduce(
-                total_flux,
+            # All ranks base the loss, the constraints and the stopping criteria on the same values. The loss of
+            # each rank depends on the motor positions of all ranks, so even a rank that traced no samples must
+            # take part in the communication during the backward pass.
+            local_results = torch.cat([total_flux.flatten(), intercept_factors])
+            if not local_results.requires_grad:
+                local_results.requires_grad_()
+            global_results = torch.distributed.nn.functional.all_reduce(
+                local_results,
                 op=torch.distributed.ReduceOp.SUM,
             )
+            total_flux = global_results[: total_flux.numel()].reshape(total_flux.shape)
+            intercept_factors = global_results[total_flux.numel() :]
+            on_target_factors = on_target_factors.detach()
+            blocking_factors = blocking_factors.detach()
+            for factors in (on_target_factors, blocking_factors):
+                torch.distributed.all_reduce(
+                    factors, op=torch.distributed.ReduceOp.SUM
+                )
 
         return total_flux, intercept_factors, on_target_factors, blocking_factors
 
@@ -694,12 +705,14 @@ class AimPointOptimizer:
         if self.ddp_setup[constants.is_distributed]:  # type: ignore
             for param_group in optimizer.param_groups:
                 for param in param_group["params"]:
-                    if param.grad is not None:
-                        torch.distributed.all_reduce(
-                            param.grad, op=torch.distributed.ReduceOp.SUM
-                        )
-                        # Average the gradients.
-                        param.grad /= self.ddp_setup[constants.world_size]  # type: ignore
+                    # A rank contributes zeros for the groups it did not trace.
+                    if param.grad is None:
+                        param.grad = torch.zeros_like(param)
+                    torch.distributed.all_reduce(
+                        param.grad, op=torch.distributed.ReduceOp.SUM
+                    )
+                    # Average the gradients.
+                    param.grad /= self.ddp_setup[constants.world_size]  # type: ignore
 
     def _broadcast_motor_positions(self) -> None:
         """
-- 
2.43.0


From 50510ed61c93b1f649ae731ef436bf09def60af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:55 +0000
Subject: [PATCH 08/30] fix: aim point optimization with losses other than the
 KL divergence

The loss stayed at its initial value without a graph, so backward() failed.
---
 artist/optim/aim_point_optimizer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/artist/optim/aim_point_optimizer.py b/artist/optim/aim_point_optimizer.py
index 1867961..fc2a25a 100644
--- a/artist/optim/aim_point_optimizer.py
+++ b/artist/optim/aim_point_optimizer.py
@@ -915,6 +915,8 @@ class AimPointOptimizer:
                     rho_local_flux=rho_local_flux,
                     max_flux_density_per_pixel=max_flux_density_per_pixel,
                 )
+            else:
+                loss = flux_loss
 
             loss.backward()
 
-- 
2.43.0


From dc08e13730929e919f012897ba5dbf167d609990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:21 +0000
Subject: [PATCH 09/30] fix: never leave a damaged scenario behind when
 generating a scenario fails

---
 artist/scenario/h5_scenario_generator.py | 46 ++++++++++++++++++++++--
 1 file changed, 44 insertions(+), 2 deletions(-)

diff --git a/artist/scenario/h5_scenario_generator.py b/artist/scenario/h5_scenario_generator.py
index fc02de2..4d7b3fa 100644
--- a/artist/scenario/h5_scenario_generator.py
+++ b/artist/scenario/h5_scenario_generator.py
@@ -1,5 +1,7 @@
 import logging
+import os
 import pathlib
+import uuid
 from collections.abc import Generator, MutableMapping
 from typing import Any
 
@@ -217,8 +219,41 @@ class H5ScenarioGenerator:
                 value = value.cpu()
             file[f"{prefix}/{key}"] = value
 
+    @staticmethod
+    def _replace_file(file_path: pathlib.Path, content: bytes) -> None:
+        """
+        Write a file such that the path always holds either its previous or the complete new content.
+
+        The content is written to a temporary file in the same folder that replaces the file once it is complete. If
+        writing fails, the temporary file is removed and an existing file is left untouched.
+
+        Parameters
+        ----------
+        file_path : pathlib.Path
+            The path of the file to write.
+        content : bytes
+            The complete new content of the file.
+        """
+        target_path = file_path.resolve()
+        temporary_path = target_path.with_name(
+            f".{target_path.name}.{uuid.uuid4().hex}.tmp"
+        )
+        try:
+            with open(temporary_path, "xb") as temporary_file:
+                temporary_file.write(content)
+                temporary_file.flush()
+                os.fsync(temporary_file.fileno())
+            os.replace(temporary_path, target_path)
+        except BaseException:
+            temporary_path.unlink(missing_ok=True)
+            raise
+
     def generate_scenario(self) -> None:
-        """Generate the scenario and save it as an HDF5 file."""
+        """
+        Generate the scenario and save it as an HDF5 file.
+
+        An existing scenario at the same path is only replaced once the new scenario is complete.
+        """
         log.info(f"Generating a scenario saved to: {self.file_path}.")
         if self.file_path.suffix == ".h5":
             save_name = self.file_path
@@ -231,7 +266,9 @@ class H5ScenarioGenerator:
                 f"A .h5 file will be produced instead."
             )
             save_name = self.file_path.with_suffix(".h5")
-        with h5py.File(save_name, "w") as f:
+        # The scenario is assembled in memory, because an interrupted or failing write to the final path would destroy an
+        # existing scenario and because not all write errors of the HDF5 library reach the caller.
+        with h5py.File(uuid.uuid4().hex, "w", driver="core", backing_store=False) as f:
             # Set scenario version as attribute.
             log.info(f"Using scenario generator version {self.version}.")
             f.attrs["version"] = self.version
@@ -299,3 +336,8 @@ class H5ScenarioGenerator:
                     self.heliostat_list_config.create_heliostat_list_dict()
                 ),
             )
+
+            f.flush()
+            content = f.id.get_file_image()
+
+        self._replace_file(file_path=save_name, content=content)
-- 
2.43.0


From 7a8fa0c4ee3f3861bda8abf85722d13df35f6b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:12 +0000
Subject: [PATCH 10/30] fix: find all blocking heliostats in larger fields

The split search of the bounding volume hierarchy could not reach every split
position with six or more blocking primitives, and identical Morton codes were
not told apart. Blocking primitives got lost or the hierarchy had cycles.
---
 artist/raytracing/blocking.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/artist/raytracing/blocking.py b/artist/raytracing/blocking.py
index aee2a39..bf5ef52 100644
--- a/artist/raytracing/blocking.py
+++ b/artist/raytracing/blocking.py
@@ -454,7 +454,8 @@ def longest_common_prefix(
 
     The longest common prefix (LCP) indicates how similar two Morton codes are and therefore also
     indicates how close (spatially) two blocking objects are. The LCP is the number of highest-order
-    bits that are identical in two Morton codes.
+    bits that are identical in two Morton codes. Identical Morton codes are told apart by their positions in
+    the sorted array, i.e., the number of identical highest-order bits of the positions is added.
 
     This method is safe and conceptualized for scenarios with up to 2^30 blocking planes represented by 30-bit Morton codes using torch.int32.
 
@@ -477,7 +478,7 @@ def longest_common_prefix(
     Returns
     -------
     torch.Tensor
-        The longest common prefixes in the range from 0 to ``total_bits``.
+        The longest common prefixes, above ``total_bits`` for identical Morton codes and -1 if ``j`` is out of range.
         Shape is ``[number_of_blocking_planes]``.
     """
     device = get_device(device=device)
@@ -505,7 +506,16 @@ def longest_common_prefix(
 
             msb[nonzero_mask] = 31 - leading_zeros
 
-        lcp[valid] = torch.where(differing_bits[valid] == 0, 30, (30 - 1) - msb[valid])
+        differing_positions = (i[valid] ^ j[valid]).to(torch.float64)
+        identical_position_bits = 32 - torch.ceil(
+            torch.log2(differing_positions + 1)
+        ).to(lcp.dtype)
+
+        lcp[valid] = torch.where(
+            differing_bits[valid] == 0,
+            30 + identical_position_bits,
+            (30 - 1) - msb[valid],
+        )
 
     return lcp
 
@@ -637,8 +647,10 @@ def build_linear_bounding_volume_hierarchies(
     )
     split = torch.zeros(number_of_blocking_primitives, dtype=torch.int32, device=device)
 
-    t = (l_ + 1) // 2
-    while t.max() >= 1:
+    # The step sizes are rounded up, so that they can add up to every possible split position.
+    t = l_
+    while t.max() > 1:
+        t = (t + 1) // 2
         candidates_lcp = longest_common_prefix(
             codes=sorted_codes,
             i=blocker_ids,
@@ -647,7 +659,6 @@ def build_linear_bounding_volume_hierarchies(
         )
         mask = candidates_lcp > delta_node
         split = torch.where(mask, split + t, split)
-        t = t // 2
 
     gamma = (
         blocker_ids
-- 
2.43.0


From f8446be357ca6ada37b55349ebf7a4816bc8cb9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:21 +0000
Subject: [PATCH 11/30] fix: load individual actuators of heliostats that use
 the kinematics prototype

The number of actuators was only set when a heliostat defined its own
kinematics, so loading such a scenario failed or used the number of actuators
of the previously loaded heliostat.
---
 artist/field/heliostat_field.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/artist/field/heliostat_field.py b/artist/field/heliostat_field.py
index 321a054..0f5e6a4 100644
--- a/artist/field/heliostat_field.py
+++ b/artist/field/heliostat_field.py
@@ -193,6 +193,8 @@ class HeliostatField:
                         "Individual kinematics configuration not provided - loading a heliostat with the kinematics prototype."
                     )
                 kinematics_type = prototype_kinematics[constants.kinematics_type]
+                if kinematics_type == constants.rigid_body_key:
+                    number_of_actuators = constants.rigid_body_number_of_actuators
 
                 initial_orientation = prototype_kinematics[
                     constants.kinematics_initial_orientation
-- 
2.43.0


From 84230c00cb751b674f15be72463bfd1770df4c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:38 +0000
Subject: [PATCH 12/30] fix: keep the NURBS degrees of each heliostat group
 when loading a field

The degrees of the heliostat loaded last were used for every group, so
surfaces of other groups were evaluated with the wrong degrees after loading.
Differing degrees within one group cannot be represented and now raise.
---
 artist/field/heliostat_field.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/artist/field/heliostat_field.py b/artist/field/heliostat_field.py
index 0f5e6a4..9708f00 100644
--- a/artist/field/heliostat_field.py
+++ b/artist/field/heliostat_field.py
@@ -118,7 +118,8 @@ class HeliostatField:
         Raises
         ------
         ValueError
-            If neither prototypes nor individual heliostat parameters are provided.
+            If neither prototypes nor individual heliostat parameters are provided or if the NURBS degrees of heliostats
+            in the same heliostat group differ.
 
         Returns
         -------
@@ -138,6 +139,7 @@ class HeliostatField:
         grouped_field_data: defaultdict[
             str, defaultdict[str, list[str | torch.Tensor]]
         ] = defaultdict(lambda: defaultdict(list))
+        nurbs_degrees_per_group: dict[str, torch.Tensor] = {}
 
         for heliostat_name in config_file[constants.heliostat_key].keys():
             single_heliostat_config = config_file[constants.heliostat_key][
@@ -311,6 +313,17 @@ class HeliostatField:
 
             heliostat_group_key = f"{kinematics_type}_{actuator_type}"
 
+            group_degrees = nurbs_degrees_per_group.setdefault(
+                heliostat_group_key, degrees
+            )
+            if any(
+                not torch.equal(facet.degrees, group_degrees)
+                for facet in surface_config.facet_list
+            ):
+                raise ValueError(
+                    f"All heliostats in the heliostat group {heliostat_group_key} must have the same NURBS degrees, but the surface of {heliostat_name} differs."
+                )
+
             grouped_field_data[heliostat_group_key][constants.names].append(
                 heliostat_name
             )
@@ -410,7 +423,7 @@ class HeliostatField:
                     nurbs_control_points=grouped_field_data[heliostat_group_name][
                         constants.facet_control_points
                     ],
-                    nurbs_degrees=degrees,
+                    nurbs_degrees=nurbs_degrees_per_group[heliostat_group_name],
                     initial_orientations=grouped_field_data[heliostat_group_name][
                         constants.initial_orientations
                     ],
-- 
2.43.0


From 97b7262d9019cbd2d446618df7599684d6aa03b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:03 +0000
Subject: [PATCH 13/30] fix: keep scenarios with an empty target area list
 loadable

An empty list of target areas wrote no HDF5 group, so that loading the
generated scenario failed with a KeyError.
---
 artist/scenario/h5_scenario_generator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/artist/scenario/h5_scenario_generator.py b/artist/scenario/h5_scenario_generator.py
index 4d7b3fa..47499e2 100644
--- a/artist/scenario/h5_scenario_generator.py
+++ b/artist/scenario/h5_scenario_generator.py
@@ -214,6 +214,8 @@ class H5ScenarioGenerator:
         parameters : dict[str, Any]
             The parameters to be included into the HDF5 file.
         """
+        # The group must exist, even if there are no parameters to be included.
+        file.require_group(prefix)
         for key, value in parameters.items():
             if torch.is_tensor(value):
                 value = value.cpu()
-- 
2.43.0


From 5d5318f9c9b5eef81c8da65de36d61c3ee32ab23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:03 +0000
Subject: [PATCH 14/30] fix: refuse truncated STRAL files

A file ending between two points of a facet left the remaining points
uninitialised instead of raising an error.
---
 artist/io/stral_scenario_parser.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/artist/io/stral_scenario_parser.py b/artist/io/stral_scenario_parser.py
index c325429..6f7bf97 100644
--- a/artist/io/stral_scenario_parser.py
+++ b/artist/io/stral_scenario_parser.py
@@ -97,9 +97,12 @@ def extract_stral_deflectometry_data(
                 number_of_points, 3, device=device
             )
 
-            points_data = points_on_facet_struct.iter_unpack(
-                file.read(points_on_facet_struct.size * number_of_points)
-            )
+            points_buffer = file.read(points_on_facet_struct.size * number_of_points)
+            if len(points_buffer) != points_on_facet_struct.size * number_of_points:
+                raise ValueError(
+                    f"The STRAL file {stral_file_path} is incomplete: Facet {facet + 1} must contain {number_of_points} points."
+                )
+            points_data = points_on_facet_struct.iter_unpack(points_buffer)
             for i, point_data in enumerate(points_data):
                 single_facet_surface_points[i, :] = torch.tensor(
                     point_data[: indices.stral_surface_points_end],
-- 
2.43.0


From 12f174d69bd4a0df17cbb0eec98d5ae848ee34b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:03 +0000
Subject: [PATCH 15/30] fix: refuse deflectometry data with missing surface
 normals

A facet with fewer surface normals than surface points left the remaining
normals uninitialised instead of raising an error.
---
 artist/io/paint_scenario_parser.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/artist/io/paint_scenario_parser.py b/artist/io/paint_scenario_parser.py
index e89904c..618ec71 100644
--- a/artist/io/paint_scenario_parser.py
+++ b/artist/io/paint_scenario_parser.py
@@ -490,6 +490,11 @@ def extract_paint_deflectometry_data(
         If None, ``ARTIST`` will automatically select the most appropriate
         device (CUDA or CPU) based on availability and OS.
 
+    Raises
+    ------
+    ValueError
+        If the number of surface points and surface normals of a facet differ.
+
     Returns
     -------
     list[torch.Tensor]
@@ -530,6 +535,11 @@ def extract_paint_deflectometry_data(
                 device=device,
             )
 
+            if len(normals_data) != number_of_points:
+                raise ValueError(
+                    f"The deflectometry file {heliostat_deflectometry_path} is incomplete: Facet {f + 1} has {number_of_points} surface points but {len(normals_data)} surface normals."
+                )
+
             for i, point_data in enumerate(points_data):
                 single_facet_surface_points[i, :] = point_data
             for i, normal_data in enumerate(normals_data):
-- 
2.43.0


From 21fc83d2a355d5fb1638fddff96e26174e96d063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:28 +0000
Subject: [PATCH 16/30] fix: select the same calibration samples for the same
 seed everywhere

The samples were shuffled in the order of the directory listing, which differs
between file systems and copies of the same data.
---
 artist/io/paint_scenario_parser.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/artist/io/paint_scenario_parser.py b/artist/io/paint_scenario_parser.py
index 618ec71..88d5249 100644
--- a/artist/io/paint_scenario_parser.py
+++ b/artist/io/paint_scenario_parser.py
@@ -1112,14 +1112,13 @@ def build_heliostat_data_mapping(
             log.warning(f"Calibration directory for {name} not found.")
             continue
 
-        property_files = list(
+        # The order of a directory listing is arbitrary.
+        property_files = sorted(
             calibration_dir.glob(f"*{paint_mappings.CALIBRATION_PROPERTIES_IDENTIFIER}")
         )
 
         if randomize:
             random.Random(seed).shuffle(property_files)
-        else:
-            property_files.sort()
 
         properties, images = [], []
 
-- 
2.43.0


From ca9c4a6e062aff461981fd05c0788fce24132a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:06 +0000
Subject: [PATCH 17/30] fix: keep measured fluxes aligned with their
 calibration properties

When a heliostat appeared more than once in the data mapping, only the images
of its last entry were loaded, while the properties of all entries were used.
Images and properties were then assigned to the wrong samples. Different
numbers of images and properties had the same effect and now raise.
---
 artist/io/calibration_parser.py       |  5 ++++-
 artist/io/paint_calibration_parser.py | 21 +++++++++++++++++----
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/artist/io/calibration_parser.py b/artist/io/calibration_parser.py
index 405576e..605d001 100644
--- a/artist/io/calibration_parser.py
+++ b/artist/io/calibration_parser.py
@@ -1,5 +1,6 @@
 import logging
 import pathlib
+from collections import defaultdict
 
 import numpy as np
 import torch
@@ -158,7 +159,9 @@ class CalibrationDataParser:
         )
 
         width, height = resolution.to(device).tolist()
-        path_mapping_dict = dict(heliostat_flux_path_mapping)
+        path_mapping_dict: defaultdict[str, list[pathlib.Path]] = defaultdict(list)
+        for heliostat_name, paths in heliostat_flux_path_mapping:
+            path_mapping_dict[heliostat_name].extend(paths)
 
         total_number_of_measurements = sum(
             min(
diff --git a/artist/io/paint_calibration_parser.py b/artist/io/paint_calibration_parser.py
index 9c1f390..e8c6ba9 100644
--- a/artist/io/paint_calibration_parser.py
+++ b/artist/io/paint_calibration_parser.py
@@ -108,6 +108,11 @@ class PaintCalibrationDataParser(CalibrationDataParser):
             If None, ``ARTIST`` will automatically select the most appropriate
             device (CUDA or CPU) based on availability and OS.
 
+        Raises
+        ------
+        ValueError
+            If the number of calibration files and flux images of a heliostat differ.
+
         Returns
         -------
         torch.Tensor
@@ -131,13 +136,21 @@ class PaintCalibrationDataParser(CalibrationDataParser):
         """
         device = get_device(device=device)
 
-        heliostat_flux_path_mapping = []
-        heliostat_calibration_mapping = []
+        flux_paths: defaultdict[str, list[pathlib.Path]] = defaultdict(list)
+        calibration_paths: defaultdict[str, list[pathlib.Path]] = defaultdict(list)
 
+        # A heliostat may appear several times in the mapping, its samples are merged in the order of appearance.
         for heliostat, path_properties, path_pngs in heliostat_data_mapping:
             if heliostat in heliostat_group.names:
-                heliostat_flux_path_mapping.append((heliostat, path_pngs))
-                heliostat_calibration_mapping.append((heliostat, path_properties))
+                if len(path_properties) != len(path_pngs):
+                    raise ValueError(
+                        f"The number of calibration files ({len(path_properties)}) and flux images ({len(path_pngs)}) of heliostat {heliostat} differ."
+                    )
+                flux_paths[heliostat].extend(path_pngs)
+                calibration_paths[heliostat].extend(path_properties)
+
+        heliostat_flux_path_mapping = list(flux_paths.items())
+        heliostat_calibration_mapping = list(calibration_paths.items())
 
         measured_flux_distributions = self.load_flux_from_png(
             heliostat_flux_path_mapping=heliostat_flux_path_mapping,
-- 
2.43.0


From b6f8a74b33b721229ff9131a40dddecc7a56e890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:52 +0000
Subject: [PATCH 18/30] fix: never replace parameters that cannot be read by
 default values

When reading a scenario file failed while looking up an optional kinematics or
actuator parameter, the failure was taken for a missing parameter and the
heliostat was loaded with a default value.
---
 artist/io/h5_scenario_parser.py | 112 ++++++++++++++++++++++----------
 1 file changed, 76 insertions(+), 36 deletions(-)

diff --git a/artist/io/h5_scenario_parser.py b/artist/io/h5_scenario_parser.py
index e92200d..566ccf0 100644
--- a/artist/io/h5_scenario_parser.py
+++ b/artist/io/h5_scenario_parser.py
@@ -9,6 +9,28 @@ from artist.util.config import FacetConfig, SurfaceConfig
 from artist.util.env import get_device
 
 
+def _get_optional_parameter(config: h5py.Group, key: str) -> h5py.Dataset | None:
+    """
+    Get a parameter that may be missing from an HDF5 scenario file.
+
+    In contrast to ``h5py.Group.get()``, which treats any failure to access the parameter as a missing parameter, errors
+    that occur while reading the file are raised.
+
+    Parameters
+    ----------
+    config : h5py.Group
+        The part of the scenario file containing the parameter.
+    key : str
+        The key of the parameter.
+
+    Returns
+    -------
+    h5py.Dataset | None
+        The parameter, or None if the scenario file does not contain it.
+    """
+    return config[key] if key in config else None
+
+
 def surface_config(
     prototype: bool,
     scenario_file: h5py.File,
@@ -188,44 +210,57 @@ def rigid_body_deviations(
         device=device,
     )
 
-    first_joint_translation_e = kinematics_config.get(
-        f"{constants.kinematics_deviations}/{constants.first_joint_translation_e}"
+    first_joint_translation_e = _get_optional_parameter(
+        kinematics_config,
+        f"{constants.kinematics_deviations}/{constants.first_joint_translation_e}",
     )
-    first_joint_translation_n = kinematics_config.get(
-        f"{constants.kinematics_deviations}/{constants.first_joint_translation_n}"
+    first_joint_translation_n = _get_optional_parameter(
+        kinematics_config,
+        f"{constants.kinematics_deviations}/{constants.first_joint_translation_n}",
     )
-    first_joint_translation_u = kinematics_config.get(
-        f"{constants.kinematics_deviations}/{constants.first_joint_translation_u}"
+    first_joint_translation_u = _get_optional_parameter(
+        kinematics_config,
+        f"{constants.kinematics_deviations}/{constants.first_joint_translation_u}",
     )
-    first_joint_tilt_n = kinematics_config.get(
-        f"{constants.kinematics_deviations}/{constants.first_joint_tilt_n}"
+    first_joint_tilt_n = _get_optional_parameter(
+        kinematics_config,
+        f"{constants.kinematics_deviations}/{constants.first_joint_tilt_n}",
     )
-    first_joint_tilt_u = kinematics_config.get(
-        f"{constants.kinematics_deviations}/{constants.first_joint_tilt_u}"
+    first_joint_tilt_u = _get_optional_parameter(
+        kinematics_config,
+        f"{constants.kinematics_deviations}/{constants.first_joint_tilt_u}",
     )
-    second_joint_translation_e = kinematics_config.get(
-        f"{constants.kinematics_deviations}/{constants.second_joint_translation_e}"
+    second_joint_translation_e = _get_optional_parameter(
+        kinematics_config,
+        f"{constants.kinematics_deviations}/{constants.second_joint_translation_e}",
     )
-    second_joint_translation_n = kinematics_config.get(
-        f"{constants.kinematics_deviations}/{constants.second_joint_translation_n}"
+    second_joint_translation_n = _get_optional_parameter(
+        kinematics_config,
+        f"{constants.kinematics_deviations}/{constants.second_joint_translation_n}",
     )
-    second_joint_translation_u = kinematics_config.get(
-        f"{constants.kinematics_deviations}/{constants.second_joint_translation_u}"
+    second_joint_translation_u = _get_optional_parameter(
+        kinematics_config,
+        f"{constants.kinematics_deviations}/{constants.second_joint_translation_u}",
     )
-    second_joint_tilt_e = kinematics_config.get(
-        f"{constants.kinematics_deviations}/{constants.second_joint_tilt_e}"
+    second_joint_tilt_e = _get_optional_parameter(
+        kinematics_config,
+        f"{constants.kinematics_deviations}/{constants.second_joint_tilt_e}",
     )
-    second_joint_tilt_n = kinematics_config.get(
-        f"{constants.kinematics_deviations}/{constants.second_joint_tilt_n}"
+    second_joint_tilt_n = _get_optional_parameter(
+        kinematics_config,
+        f"{constants.kinematics_deviations}/{constants.second_joint_tilt_n}",
     )
-    concentrator_translation_e = kinematics_config.get(
-        f"{constants.kinematics_deviations}/{constants.concentrator_translation_e}"
+    concentrator_translation_e = _get_optional_parameter(
+        kinematics_config,
+        f"{constants.kinematics_deviations}/{constants.concentrator_translation_e}",
     )
-    concentrator_translation_n = kinematics_config.get(
-        f"{constants.kinematics_deviations}/{constants.concentrator_translation_n}"
+    concentrator_translation_n = _get_optional_parameter(
+        kinematics_config,
+        f"{constants.kinematics_deviations}/{constants.concentrator_translation_n}",
     )
-    concentrator_translation_u = kinematics_config.get(
-        f"{constants.kinematics_deviations}/{constants.concentrator_translation_u}"
+    concentrator_translation_u = _get_optional_parameter(
+        kinematics_config,
+        f"{constants.kinematics_deviations}/{constants.concentrator_translation_u}",
     )
 
     rank = (
@@ -514,30 +549,35 @@ def linear_actuators(
                 indices.data_actuator_max_motor_position
             ]
         )
-        increment = actuator_config.get(
+        increment = _get_optional_parameter(
+            actuator_config,
             f"{actuator}/"
             f"{constants.actuator_parameters_key}/"
-            f"{constants.actuator_increment}"
+            f"{constants.actuator_increment}",
         )
-        initial_stroke_length = actuator_config.get(
+        initial_stroke_length = _get_optional_parameter(
+            actuator_config,
             f"{actuator}/"
             f"{constants.actuator_parameters_key}/"
-            f"{constants.actuator_initial_stroke_length}"
+            f"{constants.actuator_initial_stroke_length}",
         )
-        offset = actuator_config.get(
+        offset = _get_optional_parameter(
+            actuator_config,
             f"{actuator}/"
             f"{constants.actuator_parameters_key}/"
-            f"{constants.actuator_offset}"
+            f"{constants.actuator_offset}",
         )
-        pivot_radius = actuator_config.get(
+        pivot_radius = _get_optional_parameter(
+            actuator_config,
             f"{actuator}/"
             f"{constants.actuator_parameters_key}/"
-            f"{constants.actuator_pivot_radius}"
+            f"{constants.actuator_pivot_radius}",
         )
-        initial_angle = actuator_config.get(
+        initial_angle = _get_optional_parameter(
+            actuator_config,
             f"{actuator}/"
             f"{constants.actuator_parameters_key}/"
-            f"{constants.actuator_initial_angle}"
+            f"{constants.actuator_initial_angle}",
         )
 
         rank = (
-- 
2.43.0


From b91766db455365e35d74908a278d9afe0aeb971e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:17 +0000
Subject: [PATCH 19/30] fix: extract mixed surfaces if all heliostats are ideal
 or all are fitted

Without any ideal or without any fitted heliostat the extraction failed with an
UnboundLocalError.
---
 artist/io/paint_scenario_parser.py | 40 ++++++++++++++++--------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/artist/io/paint_scenario_parser.py b/artist/io/paint_scenario_parser.py
index 88d5249..c484f79 100644
--- a/artist/io/paint_scenario_parser.py
+++ b/artist/io/paint_scenario_parser.py
@@ -987,34 +987,36 @@ def extract_paint_heliostats_mixed_surface(
         else:
             ideal_paths.append(path_tuple)
 
-    # Process ideal heliostats.
+    # Process ideal heliostats. The prototype is based on an ideal surface, even if all surfaces are fitted.
     ideal_heliostats_config, prototype_config = _process_heliostats_from_paths(
-        paths=ideal_paths,
+        paths=ideal_paths or paths[:1],
         power_plant_position=power_plant_position,
         number_of_nurbs_control_points=number_of_nurbs_control_points,
         surface_config_generator=_ideal_surface_generator,
         device=device,
     )
 
-    # Process fitted heliostats.
-    fitted_heliostats_config, _ = _process_heliostats_from_paths(
-        paths=fitted_paths,
-        power_plant_position=power_plant_position,
-        number_of_nurbs_control_points=number_of_nurbs_control_points,
-        surface_config_generator=_fitted_surface_generator,
-        device=device,
-        nurbs_fit_optimizer=nurbs_fit_optimizer,
-        nurbs_fit_scheduler=nurbs_fit_scheduler,
-        deflectometry_step_size=deflectometry_step_size,
-        nurbs_fit_method=nurbs_fit_method,
-        nurbs_fit_tolerance=nurbs_fit_tolerance,
-        nurbs_fit_max_epoch=nurbs_fit_max_epoch,
-    )
-
-    # Combine the lists.
     combined_heliostat_list = (
-        ideal_heliostats_config.heliostat_list + fitted_heliostats_config.heliostat_list
+        list(ideal_heliostats_config.heliostat_list) if ideal_paths else []
     )
+
+    # Process fitted heliostats and combine the lists.
+    if fitted_paths:
+        fitted_heliostats_config, _ = _process_heliostats_from_paths(
+            paths=fitted_paths,
+            power_plant_position=power_plant_position,
+            number_of_nurbs_control_points=number_of_nurbs_control_points,
+            surface_config_generator=_fitted_surface_generator,
+            device=device,
+            nurbs_fit_optimizer=nurbs_fit_optimizer,
+            nurbs_fit_scheduler=nurbs_fit_scheduler,
+            deflectometry_step_size=deflectometry_step_size,
+            nurbs_fit_method=nurbs_fit_method,
+            nurbs_fit_tolerance=nurbs_fit_tolerance,
+            nurbs_fit_max_epoch=nurbs_fit_max_epoch,
+        )
+        combined_heliostat_list += fitted_heliostats_config.heliostat_list
+
     combined_heliostat_list_config = HeliostatListConfig(
         heliostat_list=combined_heliostat_list
     )
-- 
2.43.0


From e6ca8276f13cea5833f9d90ee54d6f4c3d798b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:02 +0000
Subject: [PATCH 20/30] fix: refuse to split samples if heliostats have
 different numbers of samples

---
 artist/optim/training.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/artist/optim/training.py b/artist/optim/training.py
index a44402e..2ec4e02 100644
--- a/artist/optim/training.py
+++ b/artist/optim/training.py
@@ -314,9 +314,21 @@ def train_test_split(
     -------
     TrainTestSplit
         Dataclass containing: train/test tensors, train/test indices, updated active heliostat masks.
+
+    Raises
+    ------
+    ValueError
+        If the number of samples differs between the active heliostats.
     """
     device = get_device(device=device)
 
+    samples_per_active_heliostat = active_heliostats_mask[active_heliostats_mask > 0]
+    if (samples_per_active_heliostat != samples_per_active_heliostat[0]).any():
+        raise ValueError(
+            "All active heliostats of a group must have the same number of samples, but the numbers of samples are "
+            f"{samples_per_active_heliostat.tolist()}."
+        )
+
     total_samples = int(active_heliostats_mask.sum().item())
     number_of_heliostats = int((active_heliostats_mask > 0).sum().item())
     number_of_samples_per_heliostat = int(total_samples / number_of_heliostats)
-- 
2.43.0


From a8995a0970a97f774056002532714f9564465a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:02 +0000
Subject: [PATCH 21/30] fix: angles on cylindrical targets are relative to the
 normal in the local system

---
 artist/raytracing/geometry.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/artist/raytracing/geometry.py b/artist/raytracing/geometry.py
index 20c7b5a..06471b8 100644
--- a/artist/raytracing/geometry.py
+++ b/artist/raytracing/geometry.py
@@ -396,13 +396,8 @@ def line_cylinder_intersections(
     # to all z-values.
     z = z + heights.view(-1, 1, 1) / 2
     # Initially angles are defined 0° towards positive east axis, we want to define 0° as where the normal vector points towards.
-    angles = torch.atan2(y, x) - (
-        torch.atan2(
-            cylinder_normals[:, indices.cylinder_local_y].view(-1, 1, 1),
-            cylinder_normals[:, indices.cylinder_local_x].view(-1, 1, 1),
-        )
-        - (opening_angles.view(-1, 1, 1) / 2)
-    )
+    # In the local coordinate system of the cylinder, the normal vector is the second basis vector, i.e., it always points towards 90°.
+    angles = torch.atan2(y, x) - (torch.pi / 2 - (opening_angles.view(-1, 1, 1) / 2))
 
     intersections_on_target = (
         (z >= 0)
-- 
2.43.0


From 1baf747a4a8ad53c753aa65e91ea904606aa7874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:02 +0000
Subject: [PATCH 22/30] fix: surface fits do not depend on the loss history of
 earlier fits

---
 artist/scenario/surface_generator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/artist/scenario/surface_generator.py b/artist/scenario/surface_generator.py
index 3351328..911fc17 100644
--- a/artist/scenario/surface_generator.py
+++ b/artist/scenario/surface_generator.py
@@ -1,3 +1,4 @@
+import copy
 import logging
 
 import torch
@@ -191,6 +192,9 @@ class SurfaceGenerator:
             {"params": nurbs_surface.control_points.requires_grad_()}
         )
 
+        # The scheduler is used for several fits, no fit may depend on the loss history of another fit.
+        scheduler = copy.deepcopy(scheduler, {id(optimizer): optimizer})
+
         loss = torch.inf
         epoch = 0
         while loss > tolerance and epoch <= max_epoch:
-- 
2.43.0


From c1e345448b1b39ac4342a730b4997fb574d191af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:02 +0000
Subject: [PATCH 23/30] fix: keep a copy of the mask of active heliostats

---
 artist/field/heliostat_group.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/artist/field/heliostat_group.py b/artist/field/heliostat_group.py
index fb078ff..c48a28f 100644
--- a/artist/field/heliostat_group.py
+++ b/artist/field/heliostat_group.py
@@ -254,7 +254,8 @@ class HeliostatGroup:
             )
 
         self.number_of_active_heliostats = active_heliostats_mask.sum().item()
-        self.active_heliostats_mask = active_heliostats_mask
+        # Keep a copy, later changes of the caller's mask do not activate other heliostats.
+        self.active_heliostats_mask = active_heliostats_mask.clone()
         self.active_surface_points = self.surface_points.repeat_interleave(
             active_heliostats_mask, dim=0
         )
-- 
2.43.0


From 667a7c8061deda2be5a0e361e8f4880ae5b20e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:02 +0000
Subject: [PATCH 24/30] fix: restore actuator parameters after an activation
 without heliostats

---
 artist/field/heliostat_group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/artist/field/heliostat_group.py b/artist/field/heliostat_group.py
index c48a28f..522c219 100644
--- a/artist/field/heliostat_group.py
+++ b/artist/field/heliostat_group.py
@@ -304,7 +304,7 @@ class HeliostatGroup:
                 active_heliostats_mask, dim=0
             )
         )
-        if self.kinematics.actuators.active_optimizable_parameters.numel() > 0:
+        if self.kinematics.actuators.optimizable_parameters.numel() > 0:
             self.kinematics.actuators.active_optimizable_parameters = (
                 self.kinematics.actuators.optimizable_parameters.repeat_interleave(
                     active_heliostats_mask, dim=0
-- 
2.43.0


From 947681f743166fc8c5a05f19255f235127676f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:41 +0000
Subject: [PATCH 25/30] fix: set_runtime_logger writes to the chosen log file

---
 artist/util/__init__.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/artist/util/__init__.py b/artist/util/__init__.py
index 0a45aa2..d33e9a0 100644
--- a/artist/util/__init__.py
+++ b/artist/util/__init__.py
@@ -65,6 +65,7 @@ __all__ = [
 ]
 
 import logging
+import os
 import sys
 import time
 from collections.abc import Callable
@@ -158,8 +159,16 @@ def set_runtime_logger(
     logger = logging.getLogger(logger_name)
     logger.setLevel(level)
 
-    if not logger.handlers:
-        log_file = Path(log_file)
+    log_file = Path(os.path.abspath(log_file))
+    previous_file_handlers = [
+        handler
+        for handler in logger.handlers
+        if isinstance(handler, logging.FileHandler)
+    ]
+
+    if all(
+        Path(handler.baseFilename) != log_file for handler in previous_file_handlers
+    ):
         log_file.parent.mkdir(parents=True, exist_ok=True)
 
         file_handler = logging.FileHandler(log_file)
@@ -171,6 +180,11 @@ def set_runtime_logger(
         )
         logger.addHandler(file_handler)
 
+        # The runtime logger writes to the most recently chosen file only.
+        for handler in previous_file_handlers:
+            logger.removeHandler(handler)
+            handler.close()
+
     return logger
 
 
-- 
2.43.0


From d5f7e02c230709e508d3d07d42cd45a3faf77e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:41 +0000
Subject: [PATCH 26/30] fix: importing artist does not fail if the default
 runtime log cannot be opened

---
 artist/util/__init__.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/artist/util/__init__.py b/artist/util/__init__.py
index d33e9a0..b146221 100644
--- a/artist/util/__init__.py
+++ b/artist/util/__init__.py
@@ -221,4 +221,11 @@ def track_runtime(
     return decorator
 
 
-runtime_log = set_runtime_logger("./runtime_log.txt")
+try:
+    runtime_log = set_runtime_logger("./runtime_log.txt")
+except OSError as error:
+    # ARTIST has to be usable in directories that cannot be written to, another log file can be set later.
+    runtime_log = logging.getLogger("artist.runtime")
+    logging.getLogger(__name__).warning(
+        f"The default runtime log file cannot be opened: {error}"
+    )
-- 
2.43.0


From 9026246bbb9c104c6d1000cd36046826f51132f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:35 +0000
Subject: [PATCH 27/30] fix: rays that travel away from a planar target do not
 hit it

A ray that starts behind a planar target and moves further away from it meets
the plane of the target at a negative distance only. Such intersections were
accepted, so that targets received flux from rays that never reach them.
---
 artist/raytracing/geometry.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/artist/raytracing/geometry.py b/artist/raytracing/geometry.py
index 06471b8..f8898f1 100644
--- a/artist/raytracing/geometry.py
+++ b/artist/raytracing/geometry.py
@@ -174,13 +174,15 @@ def line_plane_intersections(
     )
 
     # Filter out rays that are out of bounds of the target plane dimensions. Previously an infinite plane was considered.
-    # Also filter out rays that hit the backside of the target or rays that are parallel to the target.
+    # Also filter out rays that hit the backside of the target, rays that are parallel to the target or rays that
+    # travel away from the target, i.e., their origins are behind the target and only their extensions intersect it.
     valid_mask = (
         (0 <= bitmap_intersections_e)
         & (bitmap_intersections_e <= bitmap_resolution[indices.unbatched_bitmap_e] - 1)
         & (0 <= bitmap_intersections_u)
         & (bitmap_intersections_u <= bitmap_resolution[indices.unbatched_bitmap_u] - 1)
         & front_facing_mask
+        & (intersection_distances > 0.0)
     )
 
     bitmap_intersections_e = bitmap_intersections_e * valid_mask
-- 
2.43.0


From 24669c36564616cf448db70f0e4d170dc955d2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:33 +0000
Subject: [PATCH 28/30] fix: PAINT tower files may list the power plant at any
 position

---
 artist/io/paint_scenario_parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/artist/io/paint_scenario_parser.py b/artist/io/paint_scenario_parser.py
index c484f79..6392d60 100644
--- a/artist/io/paint_scenario_parser.py
+++ b/artist/io/paint_scenario_parser.py
@@ -81,7 +81,9 @@ def extract_paint_tower_measurements(
     target_area_planar_configs: list[TargetAreaPlanarConfig] = []
     target_area_cylindrical_configs: list[TargetAreaCylindricalConfig] = []
 
-    for target_area in list(tower_dict.keys())[1:]:
+    for target_area in tower_dict:
+        if target_area == paint_mappings.POWER_PLANT_KEY:
+            continue
         if tower_dict[target_area][paint_mappings.TOWER_TYPE_KEY] == "planar":
             target_area_corners = [
                 paint_mappings.UPPER_LEFT,
-- 
2.43.0


From a9b5b16a298b2b67739b5dae471e06dddd07e4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:39 +0000
Subject: [PATCH 29/30] fix: cylindrical targets that open by more than 180
 degrees receive light all around

---
 artist/raytracing/geometry.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/artist/raytracing/geometry.py b/artist/raytracing/geometry.py
index f8898f1..44bc662 100644
--- a/artist/raytracing/geometry.py
+++ b/artist/raytracing/geometry.py
@@ -399,7 +399,11 @@ def line_cylinder_intersections(
     z = z + heights.view(-1, 1, 1) / 2
     # Initially angles are defined 0° towards positive east axis, we want to define 0° as where the normal vector points towards.
     # In the local coordinate system of the cylinder, the normal vector is the second basis vector, i.e., it always points towards 90°.
-    angles = torch.atan2(y, x) - (torch.pi / 2 - (opening_angles.view(-1, 1, 1) / 2))
+    # Angles are counted from the beginning of the opening, also beyond the jump of atan2 from 180° to -180°.
+    angles = torch.remainder(
+        torch.atan2(y, x) - (torch.pi / 2 - (opening_angles.view(-1, 1, 1) / 2)),
+        2 * torch.pi,
+    )
 
     intersections_on_target = (
         (z >= 0)
-- 
2.43.0


From 595dd8b4cebfeadd54da1d70724e4828004ef54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:26 +0000
Subject: [PATCH 30/30] fix: balance the surface regularizers over all ranks of
 a heliostat group

---
 artist/optim/surface_reconstructor.py | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/artist/optim/surface_reconstructor.py b/artist/optim/surface_reconstructor.py
index ab2b856..e3c9abf 100644
--- a/artist/optim/surface_reconstructor.py
+++ b/artist/optim/surface_reconstructor.py
@@ -732,16 +732,35 @@ class SurfaceReconstructor:
                 original_control_points=original_control_points[local_indices],
                 device=device,
             )
+        # Average over all heliostats of the group, also those processed on other ranks in nested mode.
+        sums = torch.stack(
+            [
+                flux_loss_per_heliostat.sum(),
+                smoothness_loss_per_heliostat.sum(),
+                ideal_surface_loss_per_heliostat.sum(),
+                torch.tensor(float(flux_loss_per_heliostat.numel()), device=device),
+            ]
+        )
+        if self.ddp_setup["is_nested"]:
+            if not sums.requires_grad:
+                sums.requires_grad_()
+            sums = torch.distributed.nn.functional.all_reduce(
+                sums,
+                op=torch.distributed.ReduceOp.SUM,
+                group=self.ddp_setup["process_subgroup"],
+            )
+        flux_loss_mean, smoothness_mean, ideal_surface_mean = sums[:3] / sums[3]
+
         # Dynamic balancing of regularization magnitudes relative to data term.
         alpha = (
             weight_smoothness
-            * flux_loss_per_heliostat.mean()
-            / (smoothness_loss_per_heliostat.mean() + torch.tensor(self.epsilon))
+            * flux_loss_mean
+            / (smoothness_mean + torch.tensor(self.epsilon))
         )
         beta = (
             weight_ideal_surface
-            * flux_loss_per_heliostat.mean()
-            / (ideal_surface_loss_per_heliostat.mean() + torch.tensor(self.epsilon))
+            * flux_loss_mean
+            / (ideal_surface_mean + torch.tensor(self.epsilon))
         )
         return (
             alpha,
-- 
2.43.0

