#pragma once
namespace umpire::strategy { struct ThreadSafeAllocator { static constexpr int verif_kind = 2; }; }
