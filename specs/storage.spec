@module storage
@items
use crate::vx_deps::*;
broadcast use crate::vx_deps::no_infallible;
@trait StorageInspectInfallible
    /// the abstract contents
    spec fn i_map(&self) -> Map<Type::Key, Type::GetValue>;
@fn StorageInspectInfallible::get
@ret r
@spec
    ensures
        r matches Some(c) ==> self.i_map().contains_key(*key) && cow_view(c) == self.i_map()[*key],
        r is None ==> !self.i_map().contains_key(*key),
@fn StorageInspectInfallible::contains_key
@ret r
@spec
    ensures r == self.i_map().contains_key(*key)
@impl S@StorageInspectInfallible<Type>
    open spec fn i_map(&self) -> Map<Type::Key, Type::GetValue> { self.smap() }
@trait StorageMutateInfallible
    spec fn im_map(&self) -> Map<Type::Key, Type::GetValue>;
    spec fn im_lawful() -> bool;
@fn StorageMutateInfallible::insert
@ret r
@spec
    ensures Self::im_lawful() ==> {
        &&& final(self).im_map() == old(self).im_map().insert(*key, stored_as::<Type::SetValue, Type::GetValue>(value))
        &&& r == (if old(self).im_map().contains_key(*key) { Some(old(self).im_map()[*key]) } else { None })
    }
@fn StorageMutateInfallible::remove
@ret r
@spec
    ensures
        final(self).im_map() == old(self).im_map().remove(*key),
        r == (if old(self).im_map().contains_key(*key) { Some(old(self).im_map()[*key]) } else { None }),
@impl S@StorageMutateInfallible<Type>
    open spec fn im_map(&self) -> Map<Type::Key, Type::GetValue> { self.smap() }
    open spec fn im_lawful() -> bool { <S as StorageMutate<Type>>::s_lawful() }
