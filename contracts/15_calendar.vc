## der::calendar::days_in_month
# props C01 C07
requires 1 <= $2 <= 12,
ensures ret == spec::month_days($1 as int, $2 as int),

## der::calendar::time_from_ymdhms_utc
# props C01 C07
requires
    $1 <= 9999, 1 <= $2 <= 12, 1 <= $3 <= 31, $4 <= 23, $5 <= 59, $6 <= 59,
ensures
    ret is Ok <==> $1 >= 1970,
    ret is Ok ==> ret->Ok_0.value == spec::instant($1 as int, $2 as int, $3 as int, $4 as int, $5 as int, $6 as int),
# unroll 12
# pre
proof {
    if $1 >= 1970 { crate::lemmas::days_closed($1 as int); }
    reveal_with_fuel(spec::days_before_month, 13);
}
