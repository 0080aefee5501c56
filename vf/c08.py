from .num import check08 as check
