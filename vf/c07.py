from .num import check07 as check
