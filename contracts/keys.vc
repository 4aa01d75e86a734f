package memcache

pred okchar(c int) = 33 <= c && c <= 126

pred okkey(k str) = 1 <= len(k) && len(k) <= 250 && (forall j :: 0 <= j < len(k) ==> okchar(k[j]))

func validateKeyFormat(key)(err)
  prop C02
  inv forall j :: 0 <= j < $i ==> okchar(key[j])
  inv forall j :: 0 <= j <= $i ==> okchar(key[j])
  ensures @C02 err == nil <==> okkey(key)
  ensures @C02 len(key) == 0 ==> err == ErrKeyEmpty
  ensures @C02 len(key) > 0 && (exists j :: 0 <= j < len(key) && !okchar(key[j])) && len(key) <= 250 ==> err == ErrInvalidKeyFormat
  ensures @C02 len(key) > 250 && (forall j :: 0 <= j < len(key) ==> okchar(key[j])) ==> err == ErrKeyTooLong
  ensures @C02 len(key) > 250 && (exists j :: 0 <= j < len(key) && !okchar(key[j])) ==> err == ErrKeyTooLong || err == ErrInvalidKeyFormat
