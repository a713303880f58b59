"""All contracts."""
import specs
import specs2
import specs3
import specs4
import specs5
import specs6
import specs7
import specs8
import specs9
import specs10
import specs11
import specs12
import specs13
import specs14
import specs15
