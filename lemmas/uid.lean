/-! C26: the text hashed by NewUID (uidKey of contracts/uid.gvc) determines kind, namespace and name when the parts contain no "/". -/

theorem split {α : Type} (x : α) : ∀ (a b c d : List α), x ∉ a → x ∉ c → a ++ x :: b = c ++ x :: d → a = c ∧ b = d
  | [], b, [], d, _, _, h => by simp at h; exact ⟨rfl, h⟩
  | [], b, y :: c, d, _, hc, h => by
      simp at h; exact absurd (by simp [h.1]) hc
  | y :: a, b, [], d, ha, _, h => by
      simp at h; exact absurd (by simp [h.1]) ha
  | y :: a, b, z :: c, d, ha, hc, h => by
      simp at h ha hc
      have := split x a b c d ha.2 hc.2 h.2
      exact ⟨by rw [h.1, this.1], this.2⟩

/-- group, version, kind and namespace free of the separator (the last part, the name, may even contain it) -/
theorem uidKey_injective {α : Type} (x : α) (g v k n m g' v' k' n' m' : List α)
    (hg : x ∉ g) (hv : x ∉ v) (hk : x ∉ k) (hn : x ∉ n) (hg' : x ∉ g') (hv' : x ∉ v') (hk' : x ∉ k') (hn' : x ∉ n')
    (h : g ++ x :: (v ++ x :: (k ++ x :: (n ++ x :: m))) = g' ++ x :: (v' ++ x :: (k' ++ x :: (n' ++ x :: m')))) :
    g = g' ∧ v = v' ∧ k = k' ∧ n = n' ∧ m = m' := by
  obtain ⟨h1, h⟩ := split x _ _ _ _ hg hg' h
  obtain ⟨h2, h⟩ := split x _ _ _ _ hv hv' h
  obtain ⟨h3, h⟩ := split x _ _ _ _ hk hk' h
  obtain ⟨h4, h⟩ := split x _ _ _ _ hn hn' h
  exact ⟨h1, h2, h3, h4, h⟩
