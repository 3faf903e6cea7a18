import { jsx } from "react";
export default function Plot(props) { return jsx("plot", props); }
